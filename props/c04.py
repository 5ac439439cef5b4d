"""Distribution CRPS equals the integrated squared CDF difference."""
import numpy as np
import scipy.special as sc
from mon import core, mk, units

RULE = ('distinct (distribution, parameter regime, decade of sharpness, position of the observation) for which the '
        'reported score was compared with a quadrature of the squared CDF difference')
REQUIRE = ['gauss', 'tgauss', 'gamma', 'censored gamma', 'positive shift', 'sharp', 'wide', 'observation at zero',
           'far observation', 'means far below zero', 'scores compared', 'reduced scores', 'reduced scores with missing cells']

GLX, GLW = np.polynomial.legendre.leggauss(24)


def quad(fun, pts):
    """Integral of fun over consecutive panels; pts: (panels+1, cells)."""
    a, b = pts[:-1], pts[1:]
    h = 0.5 * (b - a)
    x = (0.5 * (a + b))[..., None] + h[..., None] * GLX
    return (fun(x) * GLW).sum(-1).__mul__(h).sum(0)


def crps_ref(cdf, y, lo, scale, hi):
    """cdf(x) with x (panels, cells, nodes) -> same shape; lo: start of the support; scale: width of the distribution."""
    n = 60
    # panels refined geometrically towards the start of the support and linear afterwards
    g = np.concatenate([[0], 2.0 ** np.arange(-50, 1)])
    lin = np.linspace(1, 1, 1)
    edges = lo + g[:, None] * scale
    k = np.linspace(0, 1, n + 1)[1:, None]
    edges = np.concatenate([edges, (lo + scale) + k * (hi - lo - scale)])
    low = np.minimum(edges, y)
    up = np.maximum(edges, y)
    below = quad(lambda x: cdf(x) ** 2, low)
    above = quad(lambda x: (1 - cdf(x)) ** 2, up)
    out = np.where(y < lo, lo - y, 0) + np.where(y > hi, y - hi, 0)
    return below + above + out


def cases(c, kind):
    n = 24
    r = c.rng
    regime = ['usual', 'sharp', 'wide', 'far'][int(r.integers(4))]
    scale10 = 10.0 ** r.uniform(-3, 3)
    if kind in ('gauss', 'tgauss'):
        mu = r.uniform(-3, 10, n)
        sg = {'usual': r.uniform(0.2, 4, n), 'sharp': 10.0 ** r.uniform(-6, -2, n), 'wide': 10.0 ** r.uniform(1, 3, n),
              'far': r.uniform(0.1, 1, n)}[regime]
        if regime == 'far':
            mu = mu * 50
        if kind == 'tgauss':
            mu = np.maximum(mu, -6 * sg)
            deep = c.words.random(n) < .3
            mu = np.where(deep, -sg * 10. ** c.words.uniform(.3, 2.3, n), mu)
            c.count('means far below zero', int((mu < -10 * sg).sum()))
        f = {'mu': mu, 'sigma': sg}
    else:
        um = r.uniform(0.1, 12, n)
        cv = {'usual': r.uniform(0.2, 1.5, n), 'sharp': 10.0 ** r.uniform(-2.7, -1, n), 'wide': r.uniform(1.5, 4, n),
              'far': r.uniform(0.1, 1, n)}[regime]
        sh = np.zeros(n)
        style = int(r.integers(3))
        if style == 1:
            sh = -um * r.uniform(0, 1.5, n)
            c.count('censored gamma')
        elif style == 2:
            sh = r.uniform(0, 3, n)
            c.count('positive shift')
        f = {'mu': um + sh, 'sigma': um * cv, 'shift': sh, 'unshifted_mu': um}
    f = {k: v * scale10 for k, v in f.items()}
    ctr = f['mu']
    o = ctr + f['sigma'] * r.normal(0, 1.5, n)
    far = r.random(n) < 0.15
    o = np.where(far, ctr + f['sigma'] * r.choice([-1, 1], n) * 10.0 ** r.uniform(0.5, 3, n), o)
    c.count('far observation', far.sum())
    if kind == 'tgauss':
        # what is left above zero is about this wide
        o = np.where(deep, f['sigma'] ** 2 / np.abs(ctr) * c.words.exponential(1, n) * 10. ** c.words.uniform(-1, 1, n), o)
    if kind != 'gauss':
        o = np.maximum(o, 0)
        z = r.random(n) < 0.1
        o = np.where(z, 0., o)
        c.count('observation at zero', (o == 0).sum())
    if kind == 'tgauss' and r.random() < 0.3:
        o[:3] = -np.abs(o[:3])
    c.count(regime)
    c.count(kind)
    c.sig(kind, regime, int(np.log10(scale10)), int(far.any()))
    return mk.Spec(kind, f, o), regime


def score(c):
    kind = ['gauss', 'tgauss', 'gamma'][c.index % 3]
    spec, regime = cases(c, kind)
    f, o = spec.f, spec.o
    shp = [(24,), (4, 6), (2, 3, 4)][int(c.rng.integers(3))]
    r = lambda a: a.reshape(shp)
    o1 = r(o)[None]
    f1 = {k: core.layout(c.rng, r(v)[None]) for k, v in f.items()}
    v = c.call('construct', mk.Spec(kind, f1, o1).build, avg_axis=0)
    got = c.call('crps', v.crps)
    c.say(kind=kind, regime=regime, f=f, o=o)
    mu, sg = f['mu'], f['sigma']
    if kind == 'gauss':
        lo, hi = mu - 9 * sg, mu + 9 * sg
        cdf = lambda x: sc.ndtr((x - mu[:, None]) / sg[:, None])
        w = 9 * sg
        acc = 1e-9
    elif kind == 'tgauss':
        lo = np.maximum(0, mu - 9 * sg)
        hi = np.where(mu < -3 * sg, 40 * sg ** 2 / np.abs(np.where(mu == 0, 1, mu)), np.maximum(mu, 0) + 10 * sg)
        L = sc.log_ndtr(mu / sg)[:, None]
        cdf = lambda x: 1 - np.exp(sc.log_ndtr(-(x - mu[:, None]) / sg[:, None]) - L)
        w = (hi - lo) / 60
        acc = 1e-7
    else:
        um, sh = f['unshifted_mu'], f['shift']
        s, th = (um / sg) ** 2, sg ** 2 / um
        lo = np.where(sh < 0, 0., sh)
        q0 = sh + th * sc.gammaincinv(s, 1e-25)
        lo = np.maximum(lo, q0)
        hi = np.maximum(sh + th * sc.gammainccinv(s, 1e-16), lo + sg)
        cdf = lambda x: sc.gammainc(s[:, None], np.maximum(x - sh[:, None], 0) / th[:, None])
        w = np.minimum(sg, hi - lo) / 4
        acc = 1e-7
    want = crps_ref(cdf, o, lo, w, hi)
    got = np.asarray(got).reshape(-1)
    c.true(np.all(np.isfinite(got)), 'CRPS is not finite')
    mag = np.abs(o) + np.abs(mu) + sg + (np.abs(f['shift']) if kind == 'gamma' else 0)
    slack = acc * sg + 1e-12 * mag * (1 if kind != 'gamma' else 100) + 1e-9 * want
    c.true(np.all(got >= -slack), 'negative CRPS', core.brief(got))
    bad = np.abs(got - want) > slack
    if bad.any():
        i = int(np.argmax(bad))
        c.fail('crps of %s: %r instead of %r for %s, observation %r' % (
            kind, got[i], want[i], {k: float(x[i]) for k, x in f.items()}, float(o[i])))
    c.count('scores compared', got.size)


def identities(c):
    """Scale and (for the Gaussian) translation equivariance; averages over axes."""
    kind = ['gauss', 'tgauss', 'gamma'][c.index % 3]
    shp = core.shape(c.rng, int(c.rng.integers(1, 4)), 1, 5, 60)
    spec = mk.make(c.rng, kind, shp)
    ax = core.axes(c.rng, len(shp))
    if c.words.random() < .08:
        ax = ()
    a = c.call('crps', spec.build(avg_axis=ax).crps)
    k = float(10.0 ** c.rng.uniform(-3, 3))
    s2 = mk.Spec(kind, {n: v * k for n, v in spec.f.items()}, spec.o * k)
    c.sig('scale', kind, shp, ax)
    c.close('crps of rescaled data', c.call('crps', s2.build(avg_axis=ax).crps), np.asarray(a) * k, 1e-7, 1e-10 * k)
    cell = np.asarray(mk.Spec(kind, {n: v[None] for n, v in spec.f.items()}, spec.o[None]).build(avg_axis=0).crps())
    c.close('averaged crps', a, core.reduce_rows(cell, ax), 1e-9, 1e-11)
    if kind == 'gauss':
        d = float(c.rng.uniform(-50, 50))
        s3 = mk.Spec(kind, {'mu': spec.f['mu'] + d, 'sigma': spec.f['sigma']}, spec.o + d)
        c.close('crps of shifted data', c.call('crps', s3.build(avg_axis=ax).crps), a, 1e-7, 1e-9)


def reduced(c):
    """crps_gamma called on its own: the cells with reduce_sum=False, by default their mean (without missing cells when they are skipped)."""
    from PyAnEn import utils_crps as U
    spec, _ = cases(c, 'gamma')
    f, shp = spec.f, [(24,), (4, 6), (2, 3, 4)][int(c.rng.integers(3))]
    um, sg, sh, o = (core.layout(c.rng, a.reshape(shp)) for a in (f['unshifted_mu'], f['sigma'], f['shift'], spec.o))
    miss = c.rng.random() < .4
    if miss:
        o = np.where(c.rng.random(shp) < .2, np.nan, o)
        o[(0,) * len(shp)] = np.nan
    skip = int(c.rng.integers(2))
    c.env(skip_nan=['False', 'True'][skip])
    cells = c.call('crps_gamma', U.crps_gamma, um, sg, sh, o, reduce_sum=False)
    v = mk.Spec('gamma', {'mu': (um + sh)[None], 'sigma': sg[None], 'shift': sh[None], 'unshifted_mu': um[None]}, o[None])
    c.close('cells of crps_gamma', cells, np.asarray(c.call('crps', v.build(avg_axis=0).crps)) if not miss else cells, 1e-10, 1e-12)
    c.same('missing cells of crps_gamma', np.isnan(cells), np.isnan(o))
    want = np.nanmean(cells) if skip else np.mean(cells)
    c.close('mean of crps_gamma', c.call('crps_gamma', U.crps_gamma, um, sg, sh, o), want, 1e-10, 0)
    c.close('mean of crps_gamma asked for', c.call('crps_gamma', U.crps_gamma, um, sg, sh, o, reduce_sum=True), want, 1e-10, 0)
    c.count('reduced scores')
    c.count('reduced scores with missing cells', miss)
    c.sig('reduced', shp, miss, skip)


WORKLOADS = [('reduced', reduced, 24, 400), ('score', score, 90, 2500), ('identities', identities, 45, 600)]
WORKLOADS += [units.workload('C04'), units.far_workload('C04'), units.types_workload('C04')]
_L = core.larger(WORKLOADS, ['score', 'identities', 'units', 'far'], 8, 120)
_L += core.larger(WORKLOADS, ['score'], 3, 40, 50000, 250000)
WORKLOADS += _L
