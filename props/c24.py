"""Numerical integration recovers mean, variance and CRPS."""
import os
import numpy as np
import scipy.special as sc
from mon import core, mk, units
from PyAnEn.utils_approximation import Integration

RULE = ('distinct (forecast type, statistic, number of bins, memory mode, way the range is set) integrals compared with exact values cell by '
        'cell, and the thresholds at which the integration evaluated probabilities')
REQUIRE = ['means compared', 'variances compared', 'scores compared', 'low memory', 'in memory', 'refined', 'default ranges',
           'explicit ranges', 'hurdle statistics', 'thresholds observed', 'ranges with missing observations', 'saved integrations',
           'fine bins', 'default bins', 'ranges without some observations', 'tens of thousands of bins']
ASSUMPTIONS = ['Reference moments and scores of truncated forecasts come from a trapezoidal rule on 8001 points.']
KINDS = ['gauss', 'hurdle', 'ens', 'tgauss', 'gamma', 'tgamma']


def cover(spec):
    """A range that holds all of the distribution and the observations."""
    k, f = spec.kind, spec.f
    if k == 'ens':
        lo, hi = f.min(), f.max()
    elif k in ('gauss', 'tgauss'):
        lo, hi = (f['mu'] - 8 * f['sigma']).min(), (f['mu'] + 8 * f['sigma']).max()
        if k == 'tgauss':
            lo = 0
    elif k in ('gamma', 'tgamma'):
        s, th = (f['unshifted_mu'] / f['sigma']) ** 2, f['sigma'] ** 2 / f['unshifted_mu']
        lo, hi = f['shift'].min() if k == 'gamma' else 0, (f['shift'] + th * sc.gammainccinv(s, 1e-13)).max()
    else:
        s, th = (f['mu'] / f['sigma']) ** 2, f['sigma'] ** 2 / f['mu']
        lo, hi = 0, (th * sc.gammainccinv(s, 1e-13)).max()
    return float(min(lo, spec.o.min())), float(max(hi, spec.o.max()))


def exact(spec, lo, hi):
    """Mean, variance and CRPS of every cell."""
    if spec.kind == 'ens':
        m = spec.members().astype(float)
        y = spec.o
        crps = np.abs(m - y).mean(0) - .5 * np.abs(m[:, None] - m[None]).mean((0, 1))
        return spec.determ(), spec.var(), crps
    n = 8001
    x = np.linspace(lo, hi, n)
    h = x[1] - x[0]
    F = np.stack([spec.cdf(v) for v in x]).reshape(n, -1)
    y = spec.o.ravel()
    crps = np.empty(y.size)
    mean, var = np.empty(y.size), np.empty(y.size)
    for j in range(y.size):
        i = np.searchsorted(x, y[j])            # x[i-1] < y <= x[i]
        Fy = float(np.interp(y[j], x, F[:, j]))
        a = np.append(F[:i, j], Fy) ** 2
        b = (1 - np.append([Fy], F[i:, j])) ** 2
        crps[j] = np.trapezoid(a, np.append(x[:i], y[j])) + np.trapezoid(b, np.append([y[j]], x[i:]))
        mean[j] = hi - np.trapezoid(F[:, j], x)
        var[j] = hi ** 2 - 2 * np.trapezoid(x * F[:, j], x) - mean[j] ** 2
    shp = spec.o.shape
    if spec.kind in ('gauss', 'gamma', 'hurdle'):
        return spec.determ(), spec.var(), crps.reshape(shp)
    return mean.reshape(shp), np.maximum(var, 0).reshape(shp), crps.reshape(shp)


def within(c, what, got, want, bound):
    got = np.asarray(got)
    c.true(got.shape == want.shape, '%s: shape %s instead of %s' % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= bound)
    if bad.any():
        i = np.unravel_index(int(np.argmax(bad)), bad.shape) if bad.shape else ()
        c.fail('%s: %r instead of %r at cell %s, allowed error %r' % (what, float(got[i]), float(want[i]), i, float(bound)))


def spied(spec, log, **kw):
    base = mk.CLS[spec.kind]

    def see(self, t):
        log.append(None if isinstance(t, np.ndarray) else float(t))
    if spec.kind == 'ens':
        kw['ensemble_axis'] = spec.ax
    if spec.kind in ('tgauss', 'tgamma'):
        kw['truncated'] = True
    return mk.watched(base, see)(spec.f, spec.o, **kw)


def grid(c, what, log, lo, hi, n):
    """The thresholds that were evaluated."""
    x = np.unique(np.array([v for v in log if v is not None]))
    c.true(len(x) > 0, '%s: no probability was evaluated' % what)
    w = hi - lo
    c.true(abs(x[0] - lo) <= 1e-9 * w and abs(x[-1] - hi) <= 1e-9 * w,
           '%s: integrated from %r to %r instead of %r to %r' % (what, x[0], x[-1], lo, hi))
    c.true(len(x) == n, '%s: %d bin edges instead of %d' % (what, len(x), n))
    c.true(np.ptp(np.diff(x)) <= 1e-6 * w, '%s: bins of different width' % what)
    c.count('thresholds observed', len(x))


def data(c, kind, maxsize=12, distinct=True):
    shp = core.shape(c.rng, nd=int(c.rng.integers(1, 4)), lo=1, hi=4, maxsize=maxsize)
    s = mk.make(c.rng, kind, shp, distinct=distinct)
    s.kw = {}
    if kind == 'ens':
        s.o = np.asarray(s.o, float)
        s.f = np.asarray(s.f, float)
    if kind == 'tgauss':
        s.o = np.maximum(s.o, 0)
    return s


def accuracy(c):
    """Explicit range that covers the distribution; two numbers of bins."""
    kind = KINDS[c.index % 6]
    spec = data(c, kind, distinct=bool(c.rng.random() < .6))
    lo, hi = cover(spec)
    w = hi - lo
    lo, hi = lo - w * float(c.rng.uniform(.01, .3)), hi + w * float(c.rng.uniform(.01, .3))
    if kind in ('gauss', 'ens') and c.rng.random() < .3:
        hi, lo = float(np.ceil(hi)), float(np.floor(lo))
        lo, hi = int(lo), int(hi)
    mean, var, crps = exact(spec, float(lo), float(hi))
    fine = (hi - lo) / 8000
    for n in (int(c.rng.integers(8, 40)), int(c.rng.choice([150, 400]))):
        h = (hi - lo) / (n - 1)
        less = bool(c.rng.random() < .4)
        wd = c.tmp()
        c.env(integrate_with_less_memory=str(less), integrate_wdir=wd)
        log = []
        if kind == 'hurdle':
            kw = dict(n_approx_bins=n, integration_range=(lo, hi))
            if c.rng.random() < .5:
                kw = {}
            v = spied(spec, log, **kw)
            if not kw:
                c.call('set_bins', v.set_bins, n)
                c.call('set_integration_range', v.set_integration_range, lo, hi)
            fns = (v.f_determ, v.variance, (lambda: v._crps()) if hasattr(v, '_crps') else v.crps)
            c.count('hurdle statistics')
        else:
            v = spied(spec, log)
            I = lambda: Integration(v, integration_range=(lo, hi) if c.rng.random() < .5 else [lo, hi], nbins=n)
            fns = (lambda: I().mean(), lambda: I().variance(), lambda: I().crps())
            if c.rng.random() < .3:
                one = I()
                fns = (one.mean, one.variance, one.crps)       # one object for everything
        if c.rng.random() < .25:
            v.enable_saving(os.path.join(wd, 'save'))
            c.count('saved integrations')
        what = '%s, %d bins%s' % (kind, n, ', low memory' if less else '')
        eps = fine * 4 + 1e-9 * (abs(lo) + abs(hi))
        order = c.rng.permutation(3)
        for j in order:
            del log[:]
            g = np.asarray(c.call(['mean', 'variance', 'crps'][j], fns[j]))
            if v.working_directory is None:
                grid(c, what, log, float(lo), float(hi), n)
            if j == 0:
                within(c, 'mean of ' + what, g, mean, h / 2 + eps)
                c.count('means compared', g.size)
            elif j == 1:
                # the standard deviation moves by at most the bin width
                c.true(np.all(g > -eps), 'negative variance of ' + what)
                within(c, 'standard deviation of ' + what, np.sqrt(np.maximum(g, 0)), np.sqrt(var), h + np.sqrt(eps * (abs(lo) + abs(hi))) * 1e-2 + eps)
                c.count('variances compared', g.size)
            else:
                within(c, 'CRPS of ' + what, g, crps if g.shape == crps.shape else crps.mean(), h + eps)
                c.count('scores compared', g.size)
            c.sig(kind, int(j), n, less)
        c.count('low memory' if less else 'in memory')
        c.count('explicit ranges')
        if n > 100:
            c.count('fine bins')
    c.count('refined')
    c.say(kind=kind, shape=spec.o.shape, range=str((lo, hi)))


def smooth(c):
    """Smooth forecasts with many bins: far more accurate than the bin width."""
    kind = ['gauss', 'gamma'][c.index % 2]
    shp = core.shape(c.rng, nd=int(c.rng.integers(1, 3)), lo=1, hi=3)
    if kind == 'gauss':
        f = {'mu': c.rng.uniform(-3, 3, shp), 'sigma': c.rng.uniform(.8, 3, shp)}
    else:
        um = c.rng.uniform(4, 9, shp)
        f = {'unshifted_mu': um, 'sigma': um / c.rng.uniform(2.5, 4, shp), 'shift': c.rng.uniform(-2, 0, shp)}
        f['mu'] = um + f['shift']
    spec = mk.Spec(kind, f, c.rng.uniform(0, 4, shp))
    lo, hi = cover(spec)
    n = int(c.rng.integers(500, 900))
    v = spec.build()
    h = (hi - lo) / (n - 1)
    less = c.index % 3 == 0
    d = c.tmp()
    I = Integration(v, integration_range=(lo, hi), nbins=n, less_memory=less, memmap_dir=d)
    mean, var, crps = exact(spec, lo, hi)
    within(c, 'mean of a smooth %s' % kind, c.call('mean', I.mean), mean, h * h * 2 + 1e-6)
    within(c, 'variance of a smooth %s' % kind, c.call('variance', I.variance), var, h * h * 3 + 1e-5)
    # the jump at the observation costs at most its position within one bin
    F = spec.cdf(spec.o)
    within(c, 'CRPS of a smooth %s' % kind, c.call('crps', I.crps), crps, h * .55 * float(np.abs(1 - 2 * F).max()) + h * h * 3 + 1e-5)
    c.count('fine bins')
    c.sig('smooth', kind, n // 100)


def ranges(c):
    """The default range and default number of bins."""
    kind = KINDS[c.index % 6]
    spec = data(c, kind)
    if spec.o.size < 2:
        spec = mk.make(c.rng, kind, (3,), distinct=True)
        spec.kw = {}
        spec.o = np.asarray(spec.o, float)
    if np.ptp(spec.o) == 0:
        spec.o.flat[0] += 1.5
    own = c.rng.random() < .35
    if not own and c.rng.random() < .3:
        # observations in a small unit or close together
        s = 2. ** -int(c.rng.integers(3, 30))
        spec.o = np.asarray(spec.o, float) * s
        c.count('narrow observations')
    k = int(c.rng.choice([1, 2, 5, 9]))
    if c.rng.random() < .7:
        c.env(integrate_range_multiplier=k)
    else:
        k = 5
    o = spec.o
    if c.rng.random() < .4 and np.unique(o).size > 2:
        o = o.copy()
        o.flat[int(c.rng.integers(o.size))] = np.nan
        spec.o = o
        c.env(skip_nan='True')
        c.count('ranges with missing observations')
    a, b = float(np.nanmin(o)), float(np.nanmax(o))
    lo, hi = a - k * (b - a), b + k * (b - a)
    given = {}
    if own:
        # used as it is, whatever was observed
        lo = [0.0, -float(c.rng.uniform(0, 3)), a + .3 * (b - a), a - (b - a), b + 1][int(c.rng.integers(5))]
        hi = 0.0 if lo < 0 and c.rng.random() < .5 else lo + float(c.rng.uniform(.3, 3)) * (b - a)
        given = {'integration_range': (lo, hi)}
        c.count('ranges without some observations')
    log = []
    n = int(c.rng.integers(5, 30))
    which = int(c.rng.integers(3))
    if kind == 'hurdle':
        v = spied(spec, log, **({'n_approx_bins': n} if c.rng.random() < .5 else {}), **given)
        if v.n_approx_bins != n:
            n = 20
            c.count('default bins')
        fn = (v.f_determ, v.variance, v.crps)[which]
    else:
        v = spied(spec, log)
        kw = {'nbins': n}
        if c.rng.random() < .3:
            kw, n = {}, 20
            c.count('default bins')
        I = Integration(v, **kw, **given)
        fn = (I.mean, I.variance, I.crps)[which]
    c.call(['mean', 'variance', 'crps'][which], fn)
    grid(c, '%s with %s' % (kind, 'range %s' % (given['integration_range'],) if own else 'default range (multiplier %d)' % k), log, lo, hi, n)
    c.count('explicit ranges' if own else 'default ranges')
    c.sig('range', kind, k, which)
    c.say(kind=kind, multiplier=k, observed=str((a, b)))


def long(c):
    """Tens of thousands of bins over a range much wider than the data."""
    kind = ['gauss', 'ens', 'gauss', 'tgauss', 'gauss', 'gamma'][c.index % 6]
    shp = [(1,), (2,), (1, 2)][int(c.rng.integers(3))]
    spec = mk.make(c.rng, kind, shp, distinct=True)
    spec.kw = {}
    spec.o = np.asarray(spec.o, float)
    if kind == 'tgauss':
        spec.o = np.maximum(spec.o, 0)
    if kind == 'ens':
        spec.f = np.asarray(spec.f, float)
    if kind == 'gauss':
        spec.f['sigma'] = c.rng.uniform(4, 20, shp)
    lo, hi = cover(spec)
    mean, var, crps = exact(spec, lo, hi)
    n = int(c.rng.integers(20000, 40000))
    h = float(c.rng.uniform(.3, .9))
    if kind == 'gauss' and c.index % 3 == 2:
        n, h = 60000, .2
    lo, hi = (lo - 5., lo - 5. + h * (n - 1)) if c.index % 3 else (hi + 5. - h * (n - 1), hi + 5.)
    less = c.index % 6 == 3
    I = Integration(spec.build(), integration_range=(lo, hi), nbins=n, less_memory=less, memmap_dir=c.tmp())
    eps = 1e-9 * (abs(lo) + abs(hi)) + 1e-3
    if kind == 'gauss' and c.index % 3 == 2:
        return within(c, 'variance of %s, %d bins' % (kind, n), c.call('variance', I.variance), var, h * h / 3 + eps)
    # bins much narrower than a smooth distribution give its mean
    within(c, 'mean of %s, %d bins' % (kind, n), c.call('mean', I.mean), mean, (h / 2 if kind != 'gauss' else 0) + eps)
    c.count('tens of thousands of bins')
    c.sig('long', kind, less, c.index % 3)
    if c.index % 3 == 0:
        return within(c, 'CRPS of %s, %d bins' % (kind, n), c.call('crps', I.crps), crps, h + eps)
    if c.index % 3 == 1:
        return
    g = np.asarray(c.call('variance', I.variance))
    # second moments are sums of large numbers: rounding of squares of the ends
    within(c, 'standard deviation of %s, %d bins' % (kind, n), np.sqrt(np.maximum(g, 0)), np.sqrt(var), h + np.sqrt(1e-14 * hi ** 2 + 1e-14 * lo ** 2) + eps)


WORKLOADS = [('long', long, 4, 24), ('accuracy', accuracy, 60, 1200), ('smooth', smooth, 12, 200), ('ranges', ranges, 90, 1500)]
WORKLOADS += [units.workload('C24'), units.types_workload('C24')]
_L = core.larger(WORKLOADS, ['ranges', 'units'], 8, 120)
WORKLOADS += _L
