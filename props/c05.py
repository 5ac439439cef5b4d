"""Forecast probabilities are the CDF of the forecast distribution."""
import numpy as np
from mon import core, mk, units
from PyAnEn.utils_dist import cdf_gaussian, cdf_gamma, cdf_gamma_hurdle

RULE = 'distinct (distribution, shape, kind of threshold, event) with every cell compared with the exact CDF'
REQUIRE = ['infinite thresholds', 'array thresholds', 'scalar thresholds', 'integer thresholds', 'numpy scalar thresholds', 'negative thresholds', 'zero thresholds', 'over',
           'below', 'monotone pairs', 'hurdle at zero', 'far upper thresholds', 'integer parameters', 'util function', 'sharpness', 'successive threshold arrays', 'means far below zero']


def thresholds(c, spec):
    """-> (label, threshold)"""
    r = c.rng
    shp = spec.o.shape
    out = [('zero', 0.0), ('int', int(r.integers(-3, 10))), ('neg', -float(r.uniform(0.01, 5))),
           ('scalar', float(r.uniform(0, 12))), ('np int', r.choice([np.int64, np.int32, np.int16])(r.integers(-3, 10))),
           ('np float', r.choice([np.float64, np.float32])(r.uniform(0, 12))), ('far', float(10.0 ** r.uniform(2, 6))),
           ('array', r.uniform(-2, 15, shp)), ('obs', np.array(spec.o, float))]
    a = r.uniform(0, 10, shp)
    a = np.where(r.random(shp) < 0.3, 0., a)
    a = np.where(r.random(shp) < 0.2, -1., a)
    out.append(('mixed', a))
    return out


def util_cdf(spec, t):
    f = spec.f
    if spec.kind in ('gauss', 'tgauss'):
        return cdf_gaussian(f['mu'], f['sigma'], t, spec.kind == 'tgauss')
    if spec.kind in ('gamma', 'tgamma'):
        return cdf_gamma(f['unshifted_mu'], f['sigma'], f['shift'], t, truncated=spec.kind == 'tgamma')
    return cdf_gamma_hurdle(f['pop'], f['mu'], f['sigma'], t)


def cdfs(c):
    kind = mk.DIST[c.index % 5]
    shp = core.shape(c.rng, None, 1, 5, 60)
    spec = mk.integral(c.rng, mk.make(c.rng, kind, shp), .3)
    c.count('integer parameters', spec.f['mu'].dtype.kind == 'i')
    v = c.call('construct', spec.build)
    c.say(kind=kind, shape=str(shp), f=spec.f)
    tail = 1.0
    prev = None
    for lab, t in thresholds(c, spec):
        over = bool(c.rng.random() < 0.5)
        want = spec.cdf(t)
        got = c.call('cdf', v.cdf, **({'over': t} if over else {'below': t}))
        c.sig(kind, shp, lab, over)
        c.count('over' if over else 'below')
        c.count('array thresholds' if isinstance(t, np.ndarray) else 'scalar thresholds')
        c.count('integer thresholds', lab in ('int', 'np int'))
        c.count('numpy scalar thresholds', lab in ('np int', 'np float'))
        c.count('negative thresholds', lab == 'neg')
        c.count('zero thresholds', lab == 'zero')
        c.count('far upper thresholds', lab == 'far')
        c.close('P(%s %s)' % ('over' if over else 'below', lab), got, 1 - want if over else want, 1e-8, 1e-9)
        c.true(np.all((got >= 0) & (got <= 1)), 'probability outside [0, 1]')
        if c.rng.random() < .3:
            c.close('sharpness at ' + lab, c.call('sharpness', v.sharpness, **({'over': t} if over else {'below': t})), got, 1e-12, 1e-12)
            c.count('sharpness')
        if c.index % 4 == 0:
            c.count('util function')
            c.close('util P(below %s)' % lab, c.call('cdf util', util_cdf, spec, t), want, 1e-8, 1e-9)
        if kind in ('tgauss', 'tgamma', 'hurdle') and lab == 'neg':
            p = 1 - got if over else got
            c.true(np.all(p == 0), 'probability below zero of a non-negative forecast is not zero')
        if kind == 'hurdle' and lab == 'zero':
            c.count('hurdle at zero')
            c.close('P(below 0) of a hurdle forecast', 1 - got if over else got, 1 - spec.f['pop'], 1e-12, 1e-12)


def monotone(c):
    kind = mk.DIST[c.index % 5]
    shp = core.shape(c.rng, None, 1, 4, 30)
    spec = mk.make(c.rng, kind, shp)
    v = c.call('construct', spec.build)
    xs = np.sort(np.concatenate([c.rng.uniform(-3, 20, 12), [0., -1e-9, 1e-9], 10.0 ** c.rng.uniform(-6, 6, 6)]))
    ps = np.array([c.call('cdf', v.cdf, below=float(x)) for x in xs])
    c.sig('monotone', kind, shp)
    c.true(np.all(np.diff(ps, axis=0) >= -1e-12), 'CDF decreases', core.brief(ps))
    c.true(np.all(np.abs(ps[-1] - spec.cdf(xs[-1])) < 1e-9), 'CDF does not reach its upper value')
    c.count('monotone pairs', ps.size)
    # a threshold array is the scalar thresholds cell by cell
    t = c.rng.choice(xs, shp)
    arr = c.call('cdf', v.cdf, below=t)
    one = np.empty(shp)
    for idx in np.ndindex(*shp):
        one[idx] = v.cdf(below=float(t[idx]))[idx]
    c.close('threshold array', arr, one, 1e-12, 1e-13)


def extremes(c):
    """Sharp, wide and shifted distributions."""
    kind = mk.DIST[c.index % 5]
    shp = (3, 4)
    r = c.rng
    if kind in ('gauss', 'tgauss'):
        sg = 10.0 ** r.uniform(-4, 4, shp)
        mu = sg * r.uniform(-3, 6, shp)
        deep = (c.words.random(shp) < .4) & (kind == 'tgauss')
        mu = np.where(deep, -sg * 10. ** c.words.uniform(.3, 1.7, shp), mu)
        c.count('means far below zero', int((mu < -10 * sg).sum()))
        f = {'mu': mu, 'sigma': sg}
    elif kind in ('gamma', 'tgamma'):
        um = 10.0 ** r.uniform(-3, 3, shp)
        f = {'unshifted_mu': um, 'sigma': um * 10.0 ** r.uniform(-3 if c.index % 2 else -2, 0.5, shp), 'shift': -um * r.uniform(0, 0.9, shp)}
        f['mu'] = f['unshifted_mu'] + f['shift']
        if kind == 'tgamma':     # keep enough mass above zero for the reference itself to be accurate
            f['shift'] = np.maximum(f['shift'], -um * 0.5)
            f['sigma'] = np.minimum(f['sigma'], um * 1.5)
    else:
        mu = 10.0 ** r.uniform(-3, 3, shp)
        f = {'pop': r.random(shp), 'mu': mu, 'sigma': mu * 10.0 ** r.uniform(-3 if c.index % 2 else -2, 0.5, shp)}
    spec = mk.Spec(kind, f, r.random(shp))
    v = c.call('construct', spec.build)
    c.say(kind=kind, f=f)
    c.sig('extreme', kind, c.index)
    t = f['mu'] + f['sigma'] * r.normal(0, 2, shp)
    if kind == 'tgauss':
        t = np.where(deep, f['sigma'] ** 2 / np.abs(f['mu']) * c.words.exponential(1, shp), t)
    c.close('cdf', c.call('cdf', v.cdf, below=t), spec.cdf(t), 1e-7, 1e-8)
    c.close('cdf far', c.call('cdf', v.cdf, below=1e7), spec.cdf(1e7), 1e-7, 1e-8)


def infinite(c):
    """Everything is below plus infinity, nothing is below minus infinity."""
    kind = mk.DIST[c.index % 5]
    shp = core.shape(c.rng, None, 1, 5, 40)
    spec = mk.make(c.rng, kind, shp)
    v = c.call('construct', spec.build)
    a = c.rng.uniform(-2, 10, shp)
    want = spec.cdf(a)
    pick = c.rng.integers(0, 3, shp)
    a = np.where(pick == 1, np.inf, np.where(pick == 2, -np.inf, a))
    want = np.where(pick == 1, 1., np.where(pick == 2, 0., want))
    for lab, t, w in (('+inf', np.inf, np.ones(shp)), ('-inf', -np.inf, np.zeros(shp)), ('array', a, want)):
        over = bool(c.rng.random() < .5)
        got = c.call('cdf', v.cdf, **({'over': t} if over else {'below': t}))
        c.close('P(%s %s)' % ('over' if over else 'below', lab), got, 1 - w if over else w, 1e-8, 1e-9)
        c.count('infinite thresholds')
        c.sig('infinite', kind, shp, lab, over)


def successive(c):
    """Thresholds that come from the same array, or look alike, are thresholds of their own."""
    kind = mk.DIST[c.index % 5]
    big = c.index % 10 > 7
    shp = (40, 40) if big else core.shape(c.rng, None, 1, 5, 40)
    spec = mk.make(c.rng, kind, shp)
    v = c.call('construct', spec.build)
    t = np.array(c.rng.uniform(.5, 8, shp))
    t0 = t.copy()
    for step in range(5):
        how = ['first', 'in place', 'one cell', 'alike', 'back'][step]
        if how == 'in place':
            t += c.rng.uniform(.5, 3, shp)
        elif how == 'one cell':
            t[tuple(s // 2 for s in shp)] += 2.5
        elif how == 'alike':
            t = t + 10. ** -int(c.rng.integers(4, 10))
        elif how == 'back':
            t[...] = t0
        over = bool(c.words.random() < .3)
        want = spec.cdf(t)
        got = c.call('cdf', v.cdf, **({'over': t} if over else {'below': t}))
        c.close('probability with a threshold array (%s)' % how, got, 1 - want if over else want, 1e-8, 1e-9)
        c.count('successive threshold arrays')
        c.sig('successive', kind, shp, how, over)


WORKLOADS = [('successive', successive, 30, 400), ('cdfs', cdfs, 60, 1500), ('infinite', infinite, 20, 300), ('monotone', monotone, 25, 500), ('extremes', extremes, 60, 1200)]
WORKLOADS += [units.workload('C05'), units.far_workload('C05'), units.types_workload('C05')]
_L = core.larger(WORKLOADS, ['cdfs', 'extremes', 'units', 'far'], 8, 120)
_L += core.larger(WORKLOADS, ['cdfs'], 3, 40, 50000, 250000)
WORKLOADS += _L
