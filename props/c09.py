"""Ranks count the members below the observation; ties are random."""
import numpy as np
from scipy import stats
from mon import core, mk, units
from PyAnEn import VerifyEnsemble
from PyAnEn.utils_verify import rank_histogram

RULE = ('distinct (source, shape, member count, member axis, tie pattern) with every rank compared with a count of the '
        'members below and equal')
REQUIRE = ['cells without ties', 'tied cells', 'every cell tied', 'sampled ensembles', 'members first', 'members last',
           'uniformity tests', 'reliability indices', 'joint ties', 'many members', 'mixed types', 'heavy ties', 'infinite ties', 'infinite members of both signs', 'lists of frequencies', 'ties in several processes']
P = 1e-9


def judge(c, ranks, M, o, what='rank'):
    ranks = np.asarray(ranks)
    c.true(ranks.shape == o.shape, '%s: shape %s instead of %s' % (what, ranks.shape, o.shape))
    lo = np.zeros(o.shape, int)
    eq = np.zeros(o.shape, int)
    for m in M:
        lo += m < o
        eq += m == o
    bad = ~((ranks >= 1 + lo) & (ranks <= 1 + lo + eq) & (ranks == np.round(ranks)))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        c.fail('%s %r outside [%d, %d] at %s' % (what, ranks[i], 1 + lo[i], 1 + lo[i] + eq[i], i))
    c.count('cells without ties', (eq == 0).sum())
    c.count('tied cells', (eq > 0).sum())
    return lo, eq


def ranks(c):
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 1, 6, 100)
    m = int(c.rng.integers(1, 12))
    kind = ['normal', 'int', 'zeros', 'const-ish', 'quant', 'f32'][c.index % 6]
    f, ax, first = core.ensemble(c.rng, shp, m, kind)
    m = f.shape[ax]
    o = core.values(c.rng, shp, kind)
    if c.rng.random() < 0.4:
        M = core.members_first(f, ax)
        pick = c.rng.integers(0, m, shp)
        o = np.where(c.rng.random(shp) < 0.7, np.take_along_axis(M, pick[None], 0)[0], o).astype(f.dtype)
    arg = core.ens_axis_arg(c.rng, ax, f.ndim)
    c.say(shape=str(shp), members=m, axis=arg, f=f, o=o)
    c.count('members first' if first else 'members last')
    v = c.call('construct', VerifyEnsemble, f, o, ensemble_axis=arg)
    M = core.members_first(f, ax)
    lo, eq = judge(c, c.call('rank_hist', v.rank_hist), M, o)
    c.count('every cell tied', (eq > 0).all())
    c.sig('ens', shp, m, arg, kind, sorted(set(eq.ravel().tolist())))
    if c.index % 3 == 0:
        judge(c, c.call('rank_histogram', rank_histogram, f=f, o=o, ensemble_axis=arg), M, o)


def middle(c):
    """The member axis in the middle, where the functions allow it."""
    shp = core.shape(c.rng, 2, 2, 6)
    m = int(c.rng.integers(2, 9))
    M = c.rng.integers(0, 6, (m,) + shp)
    o = c.rng.integers(0, 6, shp)
    f = np.moveaxis(M, 0, 1)
    c.sig('middle', shp, m)
    judge(c, c.call('rank_histogram', rank_histogram, f=f, o=o, ensemble_axis=1), M, o)


def endless(c):
    """Infinite members and observations have an order, too."""
    shp = core.shape(c.rng, None, 1, 6, 100)
    m = int(c.rng.integers(2, 9))
    f, ax, first = core.ensemble(c.rng, shp, m, 'normal')
    f = np.where(c.rng.random(f.shape) < .3, c.rng.choice([-np.inf, np.inf], f.shape), f)
    o = np.where(c.rng.random(shp) < .4, c.rng.choice([-np.inf, np.inf], shp), c.rng.normal(np.mean(f[np.isfinite(f)]) if np.isfinite(f).any() else 0, 2, shp))
    c.env(skip_nan=bool(c.index % 2))
    v = c.call('construct', VerifyEnsemble, f, o, ensemble_axis=core.ens_axis_arg(c.rng, ax, f.ndim))
    M = core.members_first(f, ax)
    judge(c, c.call('rank_hist', v.rank_hist), M, o)
    both = np.isposinf(M).any(0) & np.isneginf(M).any(0)
    c.count('infinite members of both signs', int(both.sum()))
    c.sig('endless', shp, m, c.index % 2)


def ties(c):
    """Distribution of the ranks of many tied cells, and of neighbouring pairs."""
    m = int(c.rng.integers(2, 6))
    k = int(c.rng.integers(1, m + 1))                    # equal members in every cell
    n = 3000
    at = [5., np.inf, 5., -np.inf][c.index // 2 % 4]
    c.count('infinite ties', np.isinf(at))
    o = np.full(n, at)
    M = np.concatenate([np.full((k, n), at), c.rng.choice([1.0, 9.0], (m - k, n))])
    M = c.rng.permuted(M, axis=0)
    allt = bool(c.index % 2)
    if not allt:                                         # some cells without a tie among them
        M = np.concatenate([M, c.rng.normal(0, 1, (m, 500))], axis=1)
        o = np.concatenate([o, np.zeros(500)])
    shp = (o.size,) if c.index % 3 else (o.size // 10, 10)
    o = o.reshape(shp)
    M = M.reshape((m,) + shp)
    v = c.call('construct', VerifyEnsemble, M, o, ensemble_axis=0)
    r = c.call('rank_hist', v.rank_hist)
    lo, eq = judge(c, r, M, o)
    sel = eq.ravel() == k
    u = (np.asarray(r) - 1 - lo).ravel()[sel].astype(int)
    cnt = np.bincount(u, minlength=k + 1)
    p = stats.chisquare(cnt).pvalue
    c.say(members=m, equal=k, counts=str(cnt.tolist()), p=p)
    c.sig('ties', m, k, allt, len(shp))
    c.count('uniformity tests')
    c.count('every cell tied', allt)
    c.true(p > P, 'tied ranks are not uniform: counts %s, p=%.3g' % (cnt.tolist(), p))
    # independence between cells next to each other and one row apart
    for lag in (1, 10):
        tab = np.zeros((k + 1, k + 1))
        np.add.at(tab, (u[:-lag], u[lag:]), 1)
        p = stats.chi2_contingency(tab + 1e-9).pvalue if k else 1
        c.true(p > P, 'tied ranks of different cells depend on each other: p=%.3g' % p)
        c.count('joint ties')
    # and between two calls
    r2 = np.asarray(c.call('rank_hist', v.rank_hist))
    u2 = (r2 - 1 - lo).ravel()[sel].astype(int)
    tab = np.zeros((k + 1, k + 1))
    np.add.at(tab, (u, u2), 1)
    p = stats.chi2_contingency(tab + 1e-9).pvalue
    c.true(p > P, 'tied ranks repeat between calls: p=%.3g' % p)


def slices(c):
    """Ties in one slice tell nothing about those in another, whichever process ranks them."""
    m = int(c.rng.integers(3, 9))
    shp = [(40, 12), (12, 40), (6, 8, 10)][c.index % 3]
    axis = -1 - int(c.rng.integers(len(shp)))
    c.env(tqdm_workers=int(c.rng.integers(2, 5)), tqdm_chunksize=int(c.rng.integers(1, 4)), tqdm_map_axis=axis)
    M, o = np.zeros((m,) + shp), np.zeros(shp)
    v = c.call('construct', VerifyEnsemble, M, o, ensemble_axis=0)
    r = np.asarray(c.call('rank_hist', v.rank_hist))
    judge(c, r, M, o)
    u = np.moveaxis(r, axis, 0).reshape(shp[axis], -1)
    # how many cells of two slices agree: binomial with one out of m + 1
    n, pairs = u.shape[1], [(i, j) for i in range(len(u)) for j in range(i)]
    worst = max(int((u[i] == u[j]).sum()) for i, j in pairs)
    p = stats.binom.sf(worst - 1, n, 1 / (m + 1)) * len(pairs)
    c.true(p > P, 'two slices ranked in parallel agree in %d of %d tied cells: p=%.3g' % (worst, n, p))
    c.count('ties in several processes', len(pairs))
    c.sig('slices', m, shp, axis)


def sampled(c):
    """Ranks among members sampled from a distribution, for every position of the member axis."""
    kind = ['gauss', 'tgauss', 'gamma', 'tgamma'][c.index % 4]
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 1, 5, 60)
    spec = mk.make(c.rng, kind, shp)
    m = int(c.rng.integers(1, 12))
    pos = int(c.rng.integers(-(nd + 1), nd + 1))
    wd = c.tmp()
    # with a working directory the sampled members are kept, so they can be compared with the ranks
    clip = float(c.rng.uniform(1, 4)) if c.index % 3 == 0 else None
    v = c.call('construct', spec.build, n_sample_members=m, move_sampled_ens_axis=pos, working_directory=wd,
               clip_member_to_zero=clip)
    e = c.call('prob_to_ens', v.prob_to_ens)
    c.true(e.shape[pos] == m, 'member axis is not where requested')
    r = c.call('rank_hist', v.rank_hist)
    c.sig('sampled', kind, shp, m, pos, clip is not None)
    judge(c, r, np.moveaxis(e, pos, 0), spec.o)
    c.count('sampled ensembles')


def calibrated(c):
    """Observations and members exchangeable: uniform ranks."""
    n, m = 4000, int(c.rng.integers(2, 8))
    if c.index % 2:
        x = c.rng.normal(0, 1, (m + 1, n))
    else:
        x = c.rng.integers(0, 4, (m + 1, n)).astype(float)
    v = c.call('construct', VerifyEnsemble, x[1:], x[0], ensemble_axis=0)
    r = np.asarray(c.call('rank_hist', v.rank_hist)).astype(int)
    cnt = np.bincount(r - 1, minlength=m + 1)
    p = stats.chisquare(cnt).pvalue
    c.sig('calibrated', m, c.index % 2)
    c.count('uniformity tests')
    c.true(len(cnt) == m + 1 and p > P, 'ranks of a calibrated ensemble are not uniform: %s' % cnt.tolist())


def index(c):
    k = int(c.rng.integers(1, 20))
    h = c.rng.integers(0, 50, k).astype(float)
    if h.sum() == 0:
        h[0] = 1
    style = c.index % 4
    if style == 1:
        h = np.full(k, float(c.rng.integers(1, 100)))
    elif style == 2:
        h = np.zeros(k)
        h[int(c.rng.integers(k))] = 7.
    elif style == 3:
        h = h / h.sum()
    got = c.call('reliability_index', VerifyEnsemble.reliability_index, h)
    want = sum(abs(x / h.sum() - 1 / k) for x in h)
    c.close('reliability index', got, want, 1e-9, 1e-12)
    a = float(10. ** c.rng.uniform(-6, 6))
    c.close('reliability index of rescaled counts', c.call('reliability_index', VerifyEnsemble.reliability_index, h * a), want, 1e-9, 1e-12)
    for other in (h.tolist(), tuple(h.tolist())):
        c.close('reliability index of a %s' % type(other).__name__, c.call('reliability_index', VerifyEnsemble.reliability_index, other), want, 1e-9, 1e-12)
    k2 = 2 ** int(c.rng.integers(0, 5))           # frequencies that add up to one without rounding
    c.close('reliability index of a flat list', c.call('reliability_index', VerifyEnsemble.reliability_index, [1 / k2] * k2), 0, 0, 1e-12)
    c.count('lists of frequencies')
    if style == 1:
        c.true(abs(got) < 1e-12, 'reliability index of a flat histogram is %r' % got)
    else:
        c.true((abs(got) < 1e-12) == bool(np.all(np.abs(h - h.mean()) < 1e-12 * h.sum())), 'zero index of a histogram that is not flat')
    c.sig('index', k, style)
    c.count('reliability indices')


def mixed(c):
    """Observations are compared as they are, whatever the type in which members are stored."""
    shp = core.shape(c.rng, None, 1, 6, 100)
    m = int(c.rng.integers(1, 9))
    t = [np.int64, np.int32, np.int16, np.float32][c.index % 4]
    M = c.rng.integers(-3, 9, (m,) + shp)
    if t is np.float32:
        M = (M / 10).astype(t)
        o = np.where(c.rng.random(shp) < .5, M[0].astype(float), c.rng.integers(-3, 9, shp) / 10)
    else:
        M = M.astype(t)
        o = c.rng.integers(-12, 36, shp) / 4
    if c.index % 3 == 2:
        M, o = M.astype(float), np.round(o).astype([np.int64, np.float32][c.index % 2])
    first = bool(c.rng.random() < .5)
    v = c.call('construct', VerifyEnsemble, M if first else np.moveaxis(M, 0, -1), o, ensemble_axis=0 if first else -1)
    c.say(members=str(M.dtype), observations=str(o.dtype), f=M, o=o)
    judge(c, c.call('rank_hist', v.rank_hist), M, o)
    c.count('mixed types')
    c.sig('mixed', str(M.dtype), str(o.dtype), m)


def heavy(c):
    """Observations tied with hundreds of members."""
    m = int(c.rng.integers(90, 500))
    k = int(c.rng.integers(m // 2, m + 1))
    n = 400
    M = np.concatenate([np.zeros((k, n)), c.rng.choice([-1., 1.], (m - k, n))])
    M = c.rng.permuted(M, axis=0)
    o = np.zeros(n)
    r = np.asarray(c.call('rank_hist', c.call('construct', VerifyEnsemble, M, o, ensemble_axis=0).rank_hist))
    lo, eq = judge(c, r, M, o)
    u = (r - 1 - lo + c.rng.random(n)) / (k + 1)
    p = core.ks_uniform(u)
    c.true(p > P, 'ranks tied with %d members are not uniform: p=%.3g' % (k, p))
    c.count('heavy ties', n)
    c.sig('heavy', m, k)


WORKLOADS = [('slices', slices, 6, 60), ('endless', endless, 30, 400), ('mixed', mixed, 60, 900), ('heavy', heavy, 8, 80), ('ranks', ranks, 150, 3000), ('middle', middle, 15, 200), ('ties', ties, 14, 150), ('sampled', sampled, 60, 800),
             ('calibrated', calibrated, 6, 60), ('index', index, 60, 1000)]
WORKLOADS += [units.workload('C09'), units.far_workload('C09'), units.types_workload('C09')]
_L = core.larger(WORKLOADS, ['ranks', 'sampled', 'units', 'far'], 8, 120)
_L += core.larger(WORKLOADS, ['ranks', 'sampled'], 3, 40, 50000, 250000)
WORKLOADS += _L
WORKLOADS += core.with_many(WORKLOADS, ['ranks'], 30, 500)
