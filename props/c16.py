"""Bootstrap intervals resample each cell with the configured confidence."""
import numpy as np
from mon import core, mk, units
from props.c22 import widths
from PyAnEn.utils_special_boot import corr, brier_decomp
from PyAnEn.utils_ss import binned_spread_skill
from PyAnEn.utils_verify import reliability_diagram, boot_arr

RULE = 'distinct (metric, verifier type, confidence, resample size, repeats, shape, averaging axes)'
REQUIRE = ['resamples larger than their bins', 'intervals', 'constant cells', 'one repeat', 'quantile tests', 'width tests', 'pairing tests', 'reference bootstraps',
           'axes cases', 'corr', 'brier_decomp', 'reliability', 'binned_spread_skill', 'crps', 'brier', 'spread', 'error', 'tiny resamples', 'long cells', 'levels', 'skewed statistics', 'resampled widths']
Z = 8.0


def axes_cases(c):
    """Shapes, order, containment in the range of the cell, centre: every metric that averages, any axes."""
    kind = ['determ', 'ens', 'gauss', 'gamma'][c.index % 4]
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 1, 4, 40)
    ax = core.axes(c.rng, nd)
    spec = mk.make(c.rng, kind, shp, distinct=True)
    R = int(c.rng.choice([1, 20, 60]))
    k = int(c.rng.integers(1, 50))
    c.env(boot_repeats=R, boot_confidence=float(c.rng.choice([.5, .8, .9, .95, .99])))
    v = c.call('construct', spec.build, avg_axis=ax, boot_samples=k)
    one = mk.Spec(kind, spec.f, spec.o, spec.ax).build()
    names = ['error', 'sq_error', 'ab_error'] + (['crps', 'spread', 'brier'] if kind == 'ens' else ['crps', 'brier'] if kind != 'determ' else [])
    t = float(np.median(spec.o))
    c.say(kind=kind, shape=str(shp), avg_axis=str(ax), samples=k, repeats=R)
    for name in names:
        kw = {'over': t} if name == 'brier' else {}
        got = np.asarray(c.call(name, getattr(v, name), **kw))
        cell = cellwise(spec, name, kw)
        kshape, rs = core.rows(cell, ax)
        c.sig(name, kind, shp, ax, k, R)
        c.true(got.shape == (3,) + kshape, '%s: shape %s instead of %s' % (name, got.shape, (3,) + kshape))
        for i, idx in enumerate(np.ndindex(*kshape)):
            lo, mid, hi = got[(slice(None),) + idx]
            x = rs[i]
            s = np.abs(x).max() + 1e-300
            c.true(lo <= hi, '%s: bounds not ordered: %r %r' % (name, lo, hi))
            c.true(lo >= x.min() - 1e-8 * s and hi <= x.max() + 1e-8 * s and x.min() - 1e-8 * s <= mid <= x.max() + 1e-8 * s,
                   '%s of kept cell %s: interval (%r, %r, %r) outside the range [%r, %r] of its own samples' % (
                       name, idx, lo, mid, hi, x.min(), x.max()))
            c.true(abs(mid - x.mean()) <= Z * x.std() / np.sqrt(k * R) + 1e-8 * s,
                   '%s of kept cell %s: mean %r is too far from %r' % (name, idx, mid, x.mean()))
            if R == 1:
                c.true(abs(lo - mid) <= 1e-9 * s and abs(hi - mid) <= 1e-9 * s, 'one repeat gives an interval')
                c.count('one repeat')
            c.count('intervals')
        c.count(name)
    c.count('axes cases')


def cellwise(spec, name, kw):
    if name == 'brier':
        return (spec.prob(**kw) - mk.observed(spec.o, **kw)) ** 2
    if name in ('error', 'sq_error', 'ab_error'):
        d = spec.determ() - spec.o
        return {'error': d, 'sq_error': d * d, 'ab_error': np.abs(d)}[name]
    if spec.kind == 'ens':
        M = spec.members()
        if name == 'spread':
            return M.max(0) - M.min(0)
        from .c03 import ref
        return ref(M, spec.o)
    # the cell-wise scores of distributions are decided by C04; here they only serve as population
    return np.asarray(mk.Spec(spec.kind, {q: a[None] for q, a in spec.f.items()}, spec.o[None]).build(avg_axis=0).crps())


def constant(c):
    """Every cell constant, all cells different: intervals collapse onto the own value."""
    C = int(c.rng.integers(2, 6))
    n = int(c.rng.integers(2, 20))
    val = c.rng.permutation(np.arange(1, C + 1)).astype(float)
    f = np.repeat(val[:, None], n, 1)
    pos = c.index % 2
    F = f if pos == 1 else f.T
    c.env(boot_repeats=20)
    v = c.call('construct', mk.CLS['determ'], F, np.zeros(F.shape), avg_axis=pos, boot_samples=int(c.rng.integers(1, 40)))
    got = c.call('error', v.error)
    c.close('interval of constant cells', got, np.stack([val] * 3), 1e-12, 1e-12)
    got = c.call('boot_arr', boot_arr, F, sample_axis=(pos - 2,), n_samples=5, repeats=7, confidence=.9)
    c.close('interval of constant cells', got, np.stack([val] * 3), 1e-12, 1e-12)
    c.sig('constant', C, n, pos)
    c.count('constant cells', C)


def quantiles(c):
    """Resamples of size one from uniform data: the bounds are the quantiles of the confidence."""
    C, n, R = 40, 400, 300
    conf = [.5, .6, .8, .9, .95, .99][c.index % 6]
    u = (np.arange(n) + .5) / n
    f = np.stack([c.rng.permutation(u) for _ in range(C)], 0 if c.index % 2 else 1)
    ax = 1 if c.index % 2 else 0
    c.env(boot_confidence=conf, boot_repeats=R)
    v = c.call('construct', mk.CLS['determ'], f, np.zeros(f.shape), avg_axis=ax, boot_samples=1)
    got = c.call('error', v.error)
    q = (1 - conf) / 2
    slack = Z * np.sqrt(q * (1 - q) / (R * C)) + 1.5 / R + 1. / n
    lo, mid, hi = got.mean(axis=1)
    c.sig('quantiles', conf, ax)
    c.say(confidence=conf, lower=float(lo), upper=float(hi))
    c.true(abs(lo - q) < slack, 'lower bound at quantile %.4f instead of %.4f' % (lo, q))
    c.true(abs(hi - (1 - q)) < slack, 'upper bound at quantile %.4f instead of %.4f' % (hi, 1 - q))
    c.true(abs(mid - .5) < Z * .2887 / np.sqrt(R * C) + 1e-3, 'mean %.4f instead of 0.5' % mid)
    # cells are resampled independently of each other
    c.true(len(np.unique(np.round(got[1], 12))) > C // 2, 'cells share their resamples')
    c.count('quantile tests')


def paired(c, what, got, ref, scale):
    """got, ref: (3, cells) intervals of the code and of the reference bootstrap."""
    got, ref = np.asarray(got, float), np.asarray(ref, float)
    c.true(got.shape == ref.shape, '%s: shape %s instead of %s' % (what, got.shape, ref.shape))
    for i, nm in enumerate(('lower bound', 'mean', 'upper bound')):
        d = got[i] - ref[i]
        d = d[np.isfinite(d)]
        c.true(d.size >= 8, '%s: %s missing' % (what, nm))
        se = d.std(ddof=1) / np.sqrt(d.size)
        c.true(abs(d.mean()) <= Z * se + 2e-3 * scale, '%s: %s is off by %.4g on average over %d cells (standard error %.2g)' % (
            what, nm, d.mean(), d.size, se))
    gw, rw = got[2] - got[0], ref[2] - ref[0]
    d = (gw - rw)[np.isfinite(gw - rw)]
    se = d.std(ddof=1) / np.sqrt(d.size)
    c.true(abs(d.mean()) < 6 * se + .03 * rw.mean(), '%s: intervals have %.3f of the reference width (standard error %.3f)' % (
        what, gw.mean() / rw.mean(), se / rw.mean()))
    # no cell carries the interval of another: repeats of 60 or more put the means of both bootstraps well within a width
    w = np.nanmax(rw)
    bad = np.abs(got[1] - ref[1]) > w + scale
    c.true(not bad.any(), '%s: the mean of kept cell %d is %.4g instead of %.4g, widths are %.2g at most' % (
        what, int(np.argmax(bad)), got[1][np.argmax(bad)], ref[1][np.argmax(bad)], w))
    c.count('reference bootstraps')
    c.count('width tests')


def ref_boot(rng, stat, n, k, R, conf):
    s = np.array([stat(i) for i in rng.integers(0, n, (R, k))])
    return [np.quantile(s, (1 - conf) / 2), s.mean(), np.quantile(s, (1 + conf) / 2)]


def reference(c):
    """Mean-type metrics against a bootstrap of our own."""
    C, n, R = 40, 60, 200
    k = [60, 10, 240][c.index % 3]
    conf = float(c.rng.choice([.6, .9, .95]))
    kind = ['ens', 'gauss', 'gamma', 'determ'][c.index % 4]
    name = [['crps', 'brier', 'spread', 'sq_error'], ['crps', 'brier'], ['crps', 'error'], ['ab_error', 'sq_error']][c.index % 4][c.index // 4 % 2]
    spec = mk.make(c.rng, kind, (n, C), distinct=True)
    c.env(boot_repeats=R, boot_confidence=conf)
    t = float(np.median(spec.o))
    kw = {'below': t} if name == 'brier' else {}
    got = c.call(name, getattr(spec.build(avg_axis=0, boot_samples=k), name), **kw)
    x = cellwise(spec, name, kw)
    ref = np.array([ref_boot(c.rng, lambda i: x[i, j].mean(), n, k, R, conf) for j in range(C)]).T
    c.sig('reference', kind, name, k, conf)
    c.say(kind=kind, metric=name, samples=k, confidence=conf)
    paired(c, name, got, ref, x.std() / np.sqrt(k))


def special(c):
    """Correlation and Brier decomposition against a bootstrap of our own."""
    n, C = 40, 80
    k = [120, 40, 15][c.index // 2 % 3]
    conf = float(c.rng.choice([.6, .9, .95]))
    c.env(skip_nan=bool(c.index // 2 % 2))
    if c.index % 2 == 0:
        R = 100
        o = c.rng.normal(0, 1, (n, C))
        f = .6 * o + c.rng.normal(0, 1, (n, C))
        c.env(boot_repeats=R, boot_confidence=conf)
        if c.index % 4 == 0:
            got = c.call('corr', corr, f, o, (0,), k)
        else:
            got = c.call('corr', mk.CLS['determ'](f, o, avg_axis=-2, boot_samples=k).corr)
        ref = np.array([ref_boot(c.rng, lambda i: np.corrcoef(f[i, j], o[i, j])[0, 1], n, k, R, conf) for j in range(C)]).T
        paired(c, 'corr', got, ref, 1 / np.sqrt(k))
        c.count('corr')
        c.sig('corr', k, conf, c.index % 4)
    else:
        from .c08 import parts, off_edges
        R = 60
        p = off_edges(c.rng.beta(.8, .8, (n, C)))
        e = c.rng.random((n, C)) < p
        got = c.call('brier_decomp', brier_decomp, p, e, (0,), k, R, conf)
        for q, nm in enumerate(('reliability', 'resolution', 'uncertainty')):
            ref = np.array([ref_boot(c.rng, lambda i: parts(p[i, j], e[i, j].astype(float))[q], n, k, R, conf) for j in range(C)]).T
            paired(c, nm, got[q], ref, .1 / np.sqrt(k))
        c.count('brier_decomp')
        c.sig('brier_decomp', k, conf)


def tiny(c):
    """Correlations of resamples so small that some are undefined, which are left out when missing values are skipped."""
    n, C, R = int(c.rng.integers(5, 9)), 100, 60
    k = [2, 4, 3][c.index % 3]
    conf = float(c.rng.choice([.6, .9]))
    o = c.rng.normal(0, 1, (n, C))
    f = .5 * o + c.rng.normal(0, 1, (n, C))
    c.env(boot_repeats=R, boot_confidence=conf, skip_nan=True)

    def boot(j):
        s = [np.corrcoef(f[i, j], o[i, j])[0, 1] for i in c.rng.integers(0, n, (R, k))]
        return [np.nanquantile(s, (1 - conf) / 2), np.nanmean(s), np.nanquantile(s, (1 + conf) / 2)]
    if c.index % 2:
        got = c.call('corr', corr, f, o, (0,), k)
    else:
        got = c.call('corr', mk.CLS['determ'](f, o, avg_axis=0, boot_samples=k).corr)
    ref = np.array([boot(j) for j in range(C)]).T
    paired(c, 'corr of tiny resamples', got, ref, .3)
    c.sig('tiny', k, conf, n)
    c.count('tiny resamples')


def skewed(c):
    """Statistics whose distribution is far from symmetric: the middle value is their mean."""
    from .c08 import parts, off_edges
    n, C, R = 40, 60, 400
    conf = .8
    c.env(boot_repeats=R, boot_confidence=conf, skip_nan=bool(c.index % 2))
    which = c.index // 2 % 4
    if which == 0:
        k = 6
        o = c.rng.normal(0, 1, (n, C))
        f = 2 * o + c.rng.normal(0, 1, (n, C))
        got = c.call('corr', corr, f, o, (0,), k) if c.words.random() < .5 else c.call('corr', mk.CLS['determ'](f, o, avg_axis=0, boot_samples=k).corr)
        ref = np.array([ref_boot(c.rng, lambda i: np.corrcoef(f[i, j], o[i, j])[0, 1], n, k, R, conf) for j in range(C)]).T
        paired(c, 'corr of skewed resamples', got, ref, 0)
    elif which == 1:
        k, C = 5, 40
        p = off_edges(c.rng.beta(.8, .8, (n, C)))
        e = c.rng.random((n, C)) < p
        got = c.call('brier_decomp', brier_decomp, p, e, (0,), k, R, conf)
        for q, nm in enumerate(('reliability', 'resolution', 'uncertainty')):
            ref = np.array([ref_boot(c.rng, lambda i: parts(p[i, j], e[i, j].astype(float))[q], n, k, 150, conf) for j in range(C)]).T
            d = got[q][1] - ref[1]
            se = d.std(ddof=1) / np.sqrt(C)
            c.true(abs(d.mean()) <= Z * se, '%s: mean is off by %.4g (standard error %.2g)' % (nm, d.mean(), se))
    elif which == 2:
        k = 2
        x = c.rng.exponential(1, (n, C)) ** 3
        got = c.call('boot_arr', boot_arr, x, sample_axis=(0,), n_samples=k) if c.words.random() < .5 else \
            c.call('ab_error', mk.CLS['determ'](x, np.zeros(x.shape), avg_axis=0, boot_samples=k).ab_error)
        ref = np.array([ref_boot(c.rng, lambda i: x[i, j].mean(), n, k, R, conf) for j in range(C)]).T
        d = (got[1] - ref[1]) / ref[1]
        se = d.std(ddof=1) / np.sqrt(C)
        c.true(abs(d.mean()) <= Z * se, 'mean of skewed resamples is off by %.4g of itself (standard error %.2g)' % (d.mean(), se))
    else:
        k, nb = 2, 2
        var = c.rng.gamma(1, 1, (n, C)) ** 2
        sq = c.rng.exponential(1, (n, C)) ** 3
        s, r = c.call('binned_spread_skill', binned_spread_skill, var, sq, nb, (0,), boot_samples=k, repeats=R, confidence=conf)
        for nm, got, pop in (('spread', s, var), ('rmse', r, sq)):
            D = []
            for j in range(C):
                x = pop[np.argsort(var[:, j]), j].reshape(nb, -1)
                for b in range(nb):
                    m = x[b][c.rng.integers(0, n // nb, (R, k))].mean(1)
                    # the root of the mean, as the ends are roots
                    D.append(got[j, b, 1] / np.sqrt(m.mean()) - 1)
            D = np.array(D)
            se = D.std(ddof=1) / np.sqrt(D.size)
            c.true(abs(D.mean()) <= Z * se + .01, 'binned %s: mean is off by %.4g of itself (standard error %.2g)' % (nm, D.mean(), se))
    c.count('skewed statistics')
    c.sig('skewed', which, c.index % 2)


def long(c):
    """Many samples per cell, in an order (sorted, or in runs of equal values) that only blocks or windows would notice."""
    C, R = 24, 100
    n = [1500, 9000, 3100, 20000][c.index % 4]
    k = [50, 10, 200, 1][c.index // 2 % 4]
    conf = float(c.rng.choice([.6, .9]))
    x = c.rng.gamma(2, 1, (n, C))
    if c.index % 2:
        x = np.sort(x, 0)
    else:
        x = np.repeat(x, 10, 0)[:n]
    c.env(boot_repeats=R, boot_confidence=conf)
    if c.index % 3 == 0:
        got = c.call('boot_arr', boot_arr, x, sample_axis=(0,), n_samples=k, repeats=R, confidence=conf)
    elif c.index % 3 == 1:
        got = c.call('ab_error', mk.CLS['determ'](x, np.zeros(x.shape), avg_axis=0, boot_samples=k).ab_error)
    else:
        got = c.call('spread', mk.CLS['ens'](np.stack([x, 0 * x]), x, 0, avg_axis=0, boot_samples=k).spread)
    ref = np.array([ref_boot(c.rng, lambda i: x[i, j].mean(), n, k, R, conf) for j in range(C)]).T
    paired(c, 'mean of %d samples' % n, got, ref, x.std() / np.sqrt(k))
    c.sig('long', n, k, conf, c.index % 3)
    c.count('long cells')


def pairing(c):
    """Forecast and observation are resampled together: a deterministic relation survives."""
    n, C = 30, int(c.rng.integers(1, 5))
    c.env(boot_repeats=40)
    o = c.rng.normal(0, 1, (C, n))
    f = 2 * o + 1
    got = c.call('corr', corr, f, o, (1,), int(c.rng.integers(10, 60)))
    c.close('corr of proportional data', got, np.ones((3, C)), 1e-9, 1e-9)
    p = (c.rng.random((C, n)) < .5)
    got = c.call('brier_decomp', brier_decomp, p.astype(float), p, (1,), int(c.rng.integers(10, 60)))
    c.close('reliability of a perfect forecast', got[0], np.zeros((3, C)), 0, 1e-12)
    # resolution equals uncertainty for a perfect forecast, resample by resample
    c.close('resolution of a perfect forecast', got[1], got[2], 1e-9, 1e-12)
    c.count('pairing tests')
    c.sig('pairing', C, c.index)


def binned(c):
    """Spread-skill and reliability intervals against a bootstrap of our own, bin by bin."""
    conf, R = float(c.rng.choice([.6, .9, .95])), 250
    k = [120, 40, 10][c.index // 2 % 3] if c.index % 2 else [10, 20, 120, 3000][c.index // 2 % 4]
    c.count('resamples larger than their bins', k == 3000)
    skip = bool(c.index // 2 % 3 or c.rng.random() < .3)
    c.env(skip_nan=skip)
    if c.index % 2 == 0:
        n, C, nb = 60, 16, 3
        var = c.rng.gamma(2, 2, (C, n))
        sq = c.rng.gamma(1, 3, (C, n)) * var
        s, r = c.call('binned_spread_skill', binned_spread_skill, var, sq, nb, (1,), boot_samples=k, repeats=R, confidence=conf,
                      **({'skip_nan': skip} if c.index % 4 else {}))
        c.true(s.shape == (C, nb, 3) and r.shape == (C, nb, 3), 'shape %s' % (s.shape,))
        for nm, got, pop in (('spread', s, var), ('rmse', r, sq)):
            ref = np.empty((C, nb, 3))
            for j in range(C):
                o = np.argsort(var[j])
                x = pop[j][o].reshape(nb, -1)
                for b in range(nb):
                    ref[j, b] = np.sqrt(ref_boot(c.rng, lambda i: x[b][i].mean(), n // nb, k, R, conf))
            paired(c, 'binned ' + nm, got.reshape(-1, 3).T, ref.reshape(-1, 3).T, 1 / np.sqrt(k))
        # through a verifier: same shape, ordered
        spec = mk.make(c.rng, 'gauss', (C, n), distinct=True)
        c.env(boot_repeats=30, boot_confidence=conf)
        a, b = c.call('binned_spread_skill', spec.build(avg_axis=-1, boot_samples=k).binned_spread_skill, nbins=4)
        c.true(a.shape == (C, 4, 3) and np.all(a[..., 0] <= a[..., 2]) and np.all(b[..., 0] <= b[..., 2]), 'verifier spread-skill intervals')
        w, _ = mk.Spec('gauss', spec.f, spec.o).build(avg_axis=-1).binned_spread_skill(nbins=4)
        c.true(np.all(np.abs(a[..., 1] / w - 1) < .5), 'spread-skill intervals are not centred on the spread')
        c.count('binned_spread_skill')
    else:
        n, nb = 5200, 40
        p = c.rng.random(n)
        p = np.clip(np.where(np.abs(p * nb - np.round(p * nb)) < 1e-5, p + .3 / nb, p), 0, 1)
        e = c.rng.random(n) < p
        got = c.call('reliability_diagram', reliability_diagram, p, e, nb, None, boot_samples=k, repeats=R, confidence=conf)
        b = np.minimum((p * nb).astype(int), nb - 1)
        for q, nm, x in ((0, 'probability', p), (1, 'frequency', e.astype(float))):
            ref = np.array([ref_boot(c.rng, lambda i: x[b == j][i].mean(), int((b == j).sum()), k, R, conf) for j in range(nb)]).T
            paired(c, 'reliability ' + nm, np.asarray(got[q]).T, ref, .3 / np.sqrt(k))
        c.count('reliability')
    c.sig('binned', c.index % 2, k, conf)


def levels(c):
    """Confidences with many digits: each of them has its own bounds."""
    R, n, k = 4001, 30, 12
    x = c.rng.gamma(2, 1, (n, 1))
    y = x + c.rng.gamma(2, 1, (n, 1))
    p = c.rng.random((n, 1)) * .2 + .4
    e = c.rng.random((n, 1)) < .5
    q0, dq = [(.001, .0005), (.0125, .0005), (.0245, .0005), (.1, .0005)][c.index // 6 % 4]
    name, fn = [('boot_arr', lambda: boot_arr(x, sample_axis=(0,), n_samples=k)),
                ('error', lambda: mk.CLS['determ'](x, y, avg_axis=0, boot_samples=k).error()),
                ('corr', lambda: corr(x, y, (0,), k)),
                ('brier_decomp', lambda: brier_decomp(p, e.astype(float), (0,), k)[0]),
                ('binned_spread_skill', lambda: np.moveaxis(np.asarray(binned_spread_skill(x, y ** 2, 2, (0,), boot_samples=k)), -1, 0)),
                ('reliability_diagram', lambda: np.moveaxis(np.asarray(reliability_diagram(p[:, 0], e[:, 0], 2, None, boot_samples=k)[0]), -1, 0))][c.index % 6]
    out = []
    c.env(boot_repeats=R)
    for i in range(5):
        q = q0 + i * dq
        c.env(boot_confidence=repr(round(1 - 2 * q, 6)))
        np.random.seed(c.npseed)
        out.append((q, np.asarray(c.call(name, fn), float)))
    # the next bounds are two of the resampled statistics away
    for (qa, a), (qb, b) in zip(out, out[1:]):
        c.true(np.all(a[0] < b[0]) and np.all(b[2] < a[2]), '%s: bounds for the confidences %r and %r coincide or are exchanged: %s and %s' % (
            name, round(1 - 2 * qa, 6), round(1 - 2 * qb, 6), core.brief(a), core.brief(b)))
    # bounds of single draws from uniform data
    if c.index % 6 < 2:
        N, R = 100001, 60000
        conf = [.999, .997, .9985][c.index // 6 % 3]
        np.random.seed(c.npseed)
        c.env(boot_confidence=conf, boot_repeats=R)
        got = np.ravel(c.call('boot_arr', boot_arr, np.linspace(0, 1, N), sample_axis=(0,), n_samples=1))
        q = (1 - conf) / 2
        slack = 6.5 * np.sqrt(q * (1 - q) / R) + 1.5 / R
        for nm, g in (('lower', got[0]), ('upper', 1 - got[2])):
            c.true(abs(g - q) < slack, '%s bound of confidence %r at quantile %.6f instead of %.6f' % (nm, conf, g, q))
    c.count('levels')
    c.sig('levels', name, q0)


def disable(c):
    """Switching resampling off gives the plain mean again."""
    spec = mk.make(c.rng, ['determ', 'ens', 'gauss'][c.index % 3], (4, 3), distinct=True)
    c.env(boot_repeats=10)
    v = c.call('construct', spec.build, avg_axis=0)
    a = c.call('error', v.error)
    v.set_boot_samples(7)
    c.true(np.shape(c.call('error', v.error)) == (3, 3), 'shape of intervals')
    v.disable_boot()
    c.close('error after disable_boot', c.call('error', v.error), a, 0, 0)
    c.sig('disable', c.index % 3)


WORKLOADS = [('widths', widths, 4, 60), ('skewed', skewed, 8, 80), ('axes_cases', axes_cases, 60, 1200), ('constant', constant, 16, 200), ('levels', levels, 12, 96), ('quantiles', quantiles, 6, 60),
             ('reference', reference, 8, 80), ('special', special, 6, 48), ('pairing', pairing, 8, 100), ('binned', binned, 8, 60),
             ('tiny', tiny, 6, 40), ('long', long, 6, 40),
             ('disable', disable, 6, 30)]
WORKLOADS += [units.workload('C16'), units.far_workload('C16'), units.types_workload('C16')]
_L = core.larger(WORKLOADS, ['axes_cases', 'reference'], 8, 120)
WORKLOADS += _L
