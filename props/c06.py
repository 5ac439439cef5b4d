"""Ensemble probabilities are the share of members within the threshold."""
import numpy as np
import scipy.special as sc
from mon import core, mk, units
from PyAnEn.utils_verify import ens_to_prob

RULE = ('distinct (method, shape, member count, member axis as written, kind of threshold, event) with every cell compared '
        'with the exact share or kernel integral')
REQUIRE = ['infinite members', 'threshold equals a member', 'array thresholds', 'members first', 'members last', 'over', 'below', 'kde cells',
           'kde kernels', 'kde known input', 'many members', 'left of the kernels', 'identical members']


def share(c):
    shp = core.shape(c.rng, None, 1, 5, 3 if core.MANY and core.MANY[0] > 9999 else 80)
    f, ax, first = core.ensemble(c.rng, shp, int(c.rng.integers(1, 25)))
    M = core.members_first(f, ax)
    o = core.values(c.rng, shp)
    arg = core.ens_axis_arg(c.rng, ax, f.ndim)
    v = c.call('construct', mk.CLS['ens'], f, o, ensemble_axis=arg)
    c.say(shape=str(shp), members=M.shape[0], axis=arg, f=f)
    c.count('members first' if first else 'members last')
    for lab in ('member', 'scalar', 'int', 'array', 'member array', 'obs array', 'extreme'):
        if lab == 'member':
            t = float(c.rng.choice(M.ravel()))
        elif lab == 'scalar':
            t = float(c.rng.uniform(float(M.min()) - 1, float(M.max()) + 1))
        elif lab == 'int':
            t = int(c.rng.integers(-5, 8))
        elif lab == 'array':
            t = c.rng.uniform(float(M.min()) - 1, float(M.max()) + 1, shp)
        elif lab == 'member array':
            t = np.array(M[int(c.rng.integers(M.shape[0]))], dtype=float)
        elif lab == 'obs array':
            t = np.array(o)
        else:
            t = float(c.rng.choice([-1e9, 1e9, float(M.max()), float(M.min())]))
        over = bool(c.rng.random() < .5)
        tt = np.broadcast_to(np.asarray(t), shp)
        cnt = np.zeros(shp, int)
        for m in M:
            cnt += (m <= tt)
        want = cnt / M.shape[0]
        c.count('threshold equals a member', (M == tt[None]).any())
        c.count('array thresholds', isinstance(t, np.ndarray))
        c.count('over' if over else 'below')
        kw = {'over': t} if over else {'below': t}
        got = c.call('cdf', v.cdf, **kw)
        c.sig('moments', shp, M.shape[0], arg, lab, over)
        c.close('P(%s)' % kw.keys(), got, 1 - want if over else want, 1e-12, 1e-12)
        if c.index % 5 == 0:
            g2 = c.call('ens_to_prob', ens_to_prob, f, arg, **kw)
            c.close('ens_to_prob', g2, 1 - want if over else want, 1e-12, 1e-12)
        sh = c.call('sharpness', v.sharpness, **kw)
        c.close('sharpness', sh, got, 1e-12, 1e-12)


def kernel_cdf(kernel, z):
    """CDF of the kernel with unit bandwidth."""
    if kernel == 'gaussian':
        return sc.ndtr(z)
    if kernel == 'tophat':
        return np.clip((z + 1) / 2, 0, 1)
    if kernel == 'epanechnikov':
        z = np.clip(z, -1, 1)
        return 0.75 * (z - z ** 3 / 3) + 0.5
    if kernel == 'exponential':
        return np.where(z < 0, 0.5 * np.exp(np.minimum(z, 0)), 1 - 0.5 * np.exp(-np.maximum(z, 0)))
    if kernel == 'linear':
        z = np.clip(z, -1, 1)
        return np.where(z < 0, 0.5 * (1 + z) ** 2, 1 - 0.5 * (1 - z) ** 2)
    raise KeyError(kernel)


def kernel_max(kernel):
    return {'gaussian': 0.3989, 'tophat': 0.5, 'epanechnikov': 0.75, 'exponential': 0.5, 'linear': 1.0}[kernel]


def kde(c):
    shp = core.shape(c.rng, int(c.rng.integers(1, 4)), 1, 3, 12)
    m = int(c.rng.integers(2, 9))
    first = bool(c.rng.random() < .5)
    flat = c.rng.random() < .35                          # (almost) identical members
    M = c.rng.normal(5, 2, (1,) + shp) + c.rng.choice([0., 1e-9, 1e-3, .03]) * c.rng.normal(0, 1, (m,) + shp) if flat else c.rng.normal(5, 2, (m,) + shp)
    f = M if first else np.ascontiguousarray(np.moveaxis(M, 0, -1))
    spread = (M.max(0) - M.min(0))
    kern = ['gaussian', 'gaussian', 'tophat', 'epanechnikov', 'exponential', 'linear'][c.index % 6]
    mult = int(c.rng.choice([1, 2, 5, 8]))
    samples = int(c.rng.choice([500, 1000, 3000]))
    bw = float(c.rng.uniform(0.15, 1.5))
    env = {'ens_to_prob_method': 'kde', 'kde_bandwidth': bw, 'kde_kernel': kern, 'kde_multiply_spread': mult,
           'kde_samples': samples}
    c.env(**env)
    c.count('kde kernels', kern != 'gaussian')
    o = c.rng.normal(5, 2, shp)
    v = c.call('construct', mk.CLS['ens'], f, o, ensemble_axis=0 if first else -1)
    lab = ['scalar', 'array', 'member'][c.index % 3]
    t = {'scalar': float(c.rng.uniform(0, 10)), 'array': c.rng.uniform(0, 10, shp), 'member': np.array(M[0])}[lab]
    if lab == 'array' and c.rng.random() < .5:           # close to the members, on either side
        t = M.mean(0) + bw * c.rng.normal(0, 2, shp)
    over = bool(c.rng.random() < .5)
    got = c.call('cdf', v.cdf, **({'over': t} if over else {'below': t}))
    got = 1 - got if over else got
    c.say(kernel=kern, bandwidth=bw, samples=samples, multiplier=mult, shape=str(shp), threshold=t)
    tt = np.broadcast_to(np.asarray(t, float), shp)
    start = M.min(0) - mult * np.maximum(spread, bw)
    step = np.abs(tt - start) / (samples - 1)
    lost = kernel_cdf(kern, (start[None] - M) / bw).mean(0)       # mass left of the grid
    want = kernel_cdf(kern, (tt[None] - M) / bw).mean(0) - lost
    # nothing is left of the grid; grids that do not resolve the kernel are not claimed
    left = tt <= start - 1e-9
    c.true(np.all(np.abs(got[left]) <= 1e-9), 'kde probability left of all kernels is %s' % got[left][:3])
    c.count('left of the kernels', left.sum())
    c.count('identical members', ((spread == 0) & (tt != M[0])).sum())
    ok = (tt > start) & (step <= bw / 5)
    slack = 1.1 * step * kernel_max(kern) / bw + (2 * step / bw if kern == 'tophat' else 0) + 1e-6
    bad = ok & ~(np.abs(got - want) <= slack)
    c.count('kde cells', ok.sum())
    c.sig('kde', kern, shp, m, first, lab, over, mult, samples)
    c.true(np.shape(got) == shp, 'kde shape %s' % (np.shape(got),))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        c.fail('kde probability %r instead of %r (+- %.2g) at %s' % (got[i], want[i], slack[i], i))


def kde_known(c):
    """The recorded input of the known finding, with the package defaults for everything but the method."""
    c.env(ens_to_prob_method='kde')
    f = np.array([[0., 10., 20.]])
    v = c.call('construct', mk.CLS['ens'], f, np.array([5.]), ensemble_axis=-1)
    p = float(c.call('cdf', v.cdf, below=10.01)[0])
    c.count('kde known input')
    c.sig('known', 'kde')
    # exact: members 0 and 10 (almost) below: 1/3 + ndtr(1)/3
    want = 1 / 3 + sc.ndtr(1.0) / 3
    c.say(probability=p, exact=want)
    if abs(p - want) > 0.1:
        c.finding('kde-unresolved-grid', 'kde probability of [0, 10, 20] below 10.01 is %r instead of %r' % (p, want))


def infinite(c):
    """Members and thresholds may be infinite: only their order counts."""
    shp = core.shape(c.rng, None, 1, 5, 60)
    m = int(c.rng.integers(1, 15))
    M = np.round(c.rng.normal(0, 3, (m,) + shp), 1)
    r = c.rng.random(M.shape)
    M = np.where(r < .15, np.inf, np.where(r < .3, -np.inf, M))
    first = bool(c.rng.random() < .5)
    f = M if first else np.ascontiguousarray(np.moveaxis(M, 0, -1))
    v = c.call('construct', mk.CLS['ens'], f, np.zeros(shp), ensemble_axis=0 if first else -1)
    arr = np.array(M[int(c.rng.integers(m))])
    for lab, t in (('inf', np.inf), ('-inf', -np.inf), ('member', float(c.rng.choice(M.ravel()))), ('array', arr),
                   ('scalar', float(c.rng.normal(0, 3)))):
        tt = np.broadcast_to(np.asarray(t), shp)
        want = np.mean([x <= tt for x in M], axis=0)
        over = bool(c.rng.random() < .5)
        kw = {'over': t} if over else {'below': t}
        c.close('P(%s %s)' % (list(kw)[0], lab), c.call('cdf', v.cdf, **kw), 1 - want if over else want, 1e-12, 1e-12)
        c.sig('infinite', shp, m, first, lab, over)
        c.count('infinite members')


WORKLOADS = [('share', share, 120, 2500), ('infinite', infinite, 30, 400), ('kde', kde, 48, 800), ('kde_known', kde_known, 1, 1)]
WORKLOADS += [units.workload('C06'), units.far_workload('C06'), units.types_workload('C06')]
_L = core.larger(WORKLOADS, ['share', 'units', 'far'], 8, 120)
_L += core.larger(WORKLOADS, ['share'], 3, 40, 50000, 250000)
WORKLOADS += _L
WORKLOADS += core.with_many(WORKLOADS, ['share'], 24, 400)
_M = core.many(share, 33000, 140000)
WORKLOADS.append(('most_share', _M, 2, 20))
