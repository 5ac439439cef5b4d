"""Sampled members follow the forecast distribution."""
import numpy as np
from scipy import stats
from mon import core, mk, units

RULE = ('distinct (distribution, member axis, number of workers, split axis, truncation, clipping) samples judged cell by cell against the '
        'exact distribution of the cell and against each other for independence')
REQUIRE = ['members judged', 'cells judged', 'serial samples', 'parallel samples', 'repeated calls', 'truncated members', 'clipped members',
           'kept members', 'axis first', 'axis last', 'axis inside', 'single member', 'pairs of cells', 'split along another axis',
           'samples after saving', 'large samples']
KINDS = ['gauss', 'tgauss', 'gamma', 'tgamma']
P = 1e-8


def sample(c, spec, m, ax, **kw):
    v = spec.build(n_sample_members=m, move_sampled_ens_axis=ax, **kw)
    e = np.asarray(c.call('prob_to_ens', v.prob_to_ens))
    return v, e


def first(c, spec, e, m, ax):
    """Members first, after judging the shape."""
    nd = spec.o.ndim
    pos = ax % (nd + 1)
    want = spec.o.shape[:pos] + (m,) + spec.o.shape[pos:]
    c.true(e.shape == want, 'sampled members have shape %s instead of %s (axis %d)' % (e.shape, want, ax))
    c.count('axis first' if pos == 0 else ('axis last' if pos == nd else 'axis inside'))
    return np.moveaxis(e, pos, 0)


def ptest(c, what, p):
    c.true(p > P, '%s: p-value %.2g' % (what, p))


def duplicates(u, w=None):
    x = np.sort(u[(u > .02) & (u < .98)].ravel())
    if w is not None:
        y = np.sort(w[(w > .02) & (w < .98)].ravel())
        if not x.size or not y.size:
            return 0
        i = np.clip(np.searchsorted(y, x), 1, y.size - 1) if y.size > 1 else np.zeros(x.size, int)
        return int((np.minimum(np.abs(y[i] - x), np.abs(y[i - 1] - x)) < 1e-13).sum())
    return int((np.diff(x) < 1e-13).sum())


def judge(c, spec, e, m, what):
    """e: members first. Distribution of each cell and independence."""
    u = np.stack([spec.cdf(e[i]) for i in range(m)])
    c.true(np.all(np.isfinite(e)), '%s: members that are not finite' % what)
    ptest(c, '%s: members of all cells against their own distributions' % what, core.ks_uniform(u))
    n = spec.o.size
    z = (u.reshape(m, n).mean(0) - .5) * np.sqrt(12 * m)
    if m >= 12:
        # each cell has its own distribution: neither too far from it nor, over all cells, too close to it
        ptest(c, '%s: means of the cells' % what, 2 * min(stats.chi2.sf((z ** 2).sum(), n), stats.chi2.cdf((z ** 2).sum(), n)))
    if m >= 60:
        for j in range(n):
            ptest(c, '%s: cell %d' % (what, j), core.ks_uniform(u.reshape(m, n)[:, j]))
            c.count('cells judged')
    d = duplicates(u)
    c.true(d < 3, '%s: %d draws are equal to draws of other cells or members' % (what, d))
    if n > 1 and m > 20:
        r = stats.rankdata(u.reshape(m, n), axis=0)
        r = (r - r.mean(0)) / r.std(0)
        cc = (r.T @ r) / m
        iu = np.triu_indices(n, 1)
        worst = np.abs(cc[iu]).max()
        # Fisher bound for the largest of all pairs
        pv = 2 * stats.norm.sf(np.arctanh(min(worst, 1 - 1e-12)) * np.sqrt(m - 3) / 1.06) * len(iu[0])
        ptest(c, '%s: members of two cells are correlated (%.3f)' % (what, worst), pv)
        c.count('pairs of cells', len(iu[0]))
    if m > 2 and n * m > 300:
        a, b = u[:-1].ravel(), u[1:].ravel()
        ptest(c, '%s: successive members are correlated' % what, stats.pearsonr(a, b).pvalue)
    if spec.kind in ('tgauss', 'tgamma'):
        c.true(e.min() >= -1e-10, '%s: negative member %r of a truncated forecast' % (what, float(e.min())))
        c.count('truncated members', e.size)
    c.count('members judged', e.size)
    return u


def serial(c):
    kind = KINDS[c.index % 4]
    shp = core.shape(c.rng, nd=int(c.rng.integers(1, 4)), lo=1, hi=6, maxsize=60)
    spec = mk.make(c.rng, kind, shp)
    ax = int(c.rng.integers(-(len(shp) + 1), len(shp) + 1))
    m = int(c.rng.choice([1, 2, 7, 25, 120]))
    v, e = sample(c, spec, m, ax)
    u = judge(c, spec, first(c, spec, e, m, ax), m, kind)
    e2 = np.asarray(c.call('prob_to_ens again', v.prob_to_ens))
    w = judge(c, spec, first(c, spec, e2, m, ax), m, kind + ' again')
    d = duplicates(u, w)
    c.true(d < 3, '%s: %d draws of a second call equal draws of the first' % (kind, d))
    c.count('repeated calls')
    c.count('serial samples')
    if m == 1:
        c.count('single member')
    c.sig('serial', kind, ax, m, len(shp))
    c.say(kind=kind, shape=shp, members=m, axis=ax)


def parallel(c):
    kind = KINDS[c.index % 4]
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd=nd, lo=2, hi=6, maxsize=60)
    spec = mk.make(c.rng, kind, shp)
    ax = int(c.rng.integers(-(nd + 1), nd + 1))
    m = int(c.rng.choice([2, 25, 80]))
    sx = -int(c.rng.integers(1, nd + 1))
    c.env(tqdm_workers=int(c.rng.integers(2, 5)), tqdm_chunksize=int(c.rng.integers(1, 4)), tqdm_map_axis=sx)
    if sx != -1:
        c.count('split along another axis')
    v, e = sample(c, spec, m, ax)
    u = judge(c, spec, first(c, spec, e, m, ax), m, kind + ' parallel')
    e2 = np.asarray(c.call('prob_to_ens again', v.prob_to_ens))
    w = judge(c, spec, first(c, spec, e2, m, ax), m, kind + ' parallel again')
    d = duplicates(u, w)
    c.true(d < 3, '%s: %d draws of a second parallel call equal draws of the first' % (kind, d))
    c.count('repeated calls')
    c.count('parallel samples')
    c.sig('parallel', kind, ax, m, sx)
    c.say(kind=kind, shape=shp, members=m, axis=ax, split=sx)


def clip(c):
    """Members below the clip value are zero, and only those."""
    kind = KINDS[c.index % 4]
    shp = core.shape(c.rng, nd=int(c.rng.integers(1, 3)), lo=1, hi=6, maxsize=40)
    spec = mk.make(c.rng, kind, shp)
    ax = int(c.rng.choice([0, -1]))
    m = int(c.rng.choice([3, 20, 60]))
    if c.index % 7 == 6:
        c.env(tqdm_workers=2)
    value = float(c.rng.choice([0., .1, 1., 3., -1.]) if c.rng.random() < .7 else c.rng.uniform(0, 5))
    s = int(c.rng.integers(2 ** 31))
    np.random.seed(s)
    _, plain = sample(c, spec, m, ax)
    np.random.seed(s)
    v, e = sample(c, spec, m, ax, clip_member_to_zero=value)
    c.same('clipped members (at %r)' % value, e, np.where(plain < value, 0., plain))
    below = plain < value
    c.count('clipped members', below.sum())
    c.count('kept members', (~below).sum())
    # and by distribution, whatever the numbers drawn
    g = first(c, spec, np.asarray(c.call('prob_to_ens', v.prob_to_ens)), m, ax)
    c.true(np.all((g >= value) | (g == 0)), 'a member lies below the clip value %r: %r' % (value, float(g.min())))
    q = np.broadcast_to(spec.cdf(value), g.shape)
    zero = (g == 0)
    if q.size >= 50 and value != 0:
        k, mean, var = zero.sum(), q.sum(), (q * (1 - q)).sum()
        # sum of independent events (Chernoff bound)
        if abs(k - mean) > 1 and var > 0:
            dlt = abs(k - mean)
            ptest(c, 'number of clipped members: %d instead of about %.1f' % (k, mean), 2 * np.exp(-dlt ** 2 / (2 * (var + dlt / 3))))
    keep = (g > value) & ~zero & (q < 1 - 1e-9)
    if keep.sum() > 20 and value != 0:
        u = (np.stack([spec.cdf(g[i]) for i in range(m)])[keep] - q[keep]) / (1 - q[keep])
        ptest(c, 'members above the clip value', core.ks_uniform(np.clip(u, 0, 1)))
    # through a saved file as well
    if c.index % 5 == 0:
        v.enable_saving(c.tmp() + '/w')
        a = np.asarray(c.call('prob_to_ens', v.prob_to_ens))
        b = np.asarray(c.call('prob_to_ens', v.prob_to_ens))
        c.same('saved members', a, b)
        c.true(np.all((b >= value) | (b == 0)), 'a saved member lies below the clip value')
        c.count('samples after saving')
    c.sig('clip', kind, value, ax)
    c.say(kind=kind, shape=shp, members=m, clip=value)


def derived(c):
    """Spread and ranks of sampled members have the distribution of the range and rank of draws."""
    kind = KINDS[c.index % 4]
    shp = (int(c.rng.integers(3, 6)), int(c.rng.integers(40, 70)))
    spec = mk.make(c.rng, kind, shp)
    spec.o = spec.draw(c.rng)
    m = int(c.rng.integers(2, 9))
    ax = int(c.rng.choice([-1, 0, 1]))
    v = spec.build(n_sample_members=m, move_sampled_ens_axis=ax)
    r = np.asarray(c.call('rank_hist', v.rank_hist))
    c.true(r.shape == shp, 'ranks have shape %s' % (r.shape,))
    obs = np.bincount(r.ravel().astype(int), minlength=m + 2)
    c.true(obs[0] == 0 and len(obs) == m + 2, 'ranks outside 1..%d' % (m + 1))
    ptest(c, 'ranks of observations drawn from the forecast %s are not uniform: %s' % (kind, obs[1:].tolist()),
          stats.chisquare(obs[1:]).pvalue)
    c.count('members judged', r.size)
    c.sig('derived', kind, m, ax)
    c.say(kind=kind, members=m)


def many(c):
    """Large samples: still one draw per member, each of its own."""
    kind = KINDS[c.index % 4]
    shp = core.shape(c.rng, nd=int(c.rng.integers(1, 3)), lo=1, hi=4, maxsize=9)
    spec = mk.make(c.rng, kind, shp)
    m = int(10 ** c.rng.uniform(2.8, 4 if kind != 'tgamma' else 3.6))
    if c.index % 5 == 4:
        c.env(tqdm_workers=2)
    v, e = sample(c, spec, m, 0)
    judge(c, spec, first(c, spec, e, m, 0), m, '%s with %d members' % (kind, m))
    c.count('large samples')
    c.sig('many', kind, int(np.log10(m) * 2))
    c.say(kind=kind, shape=shp, members=m)


WORKLOADS = [('serial', serial, 120, 2500), ('many', many, 16, 200), ('parallel', parallel, 24, 300), ('clip', clip, 80, 1500), ('derived', derived, 32, 500)]
WORKLOADS += [units.workload('C23'), units.far_workload('C23'), units.types_workload('C23')]
_L = core.larger(WORKLOADS, ['clip', 'derived', 'units', 'far'], 8, 120)
WORKLOADS += _L
