"""PIT is the CDF at the observation, randomized at zero."""
import numpy as np
from mon import core, mk, units

RULE = 'distinct (distribution, shape, share of zeros, randomization) with every rank compared with the exact CDF'
REQUIRE = ['zero observations', 'other observations', 'exact zeros', 'uniformity of zeros', 'calibration tests', 'rank_hist', 'pit',
           'no zero at all', 'negative zeros', 'zero and nothing else', 'ends of the range']
P = 1e-9


def pit(c):
    kind = mk.DIST[c.index % 5]
    shp = core.shape(c.rng, None, 1, 6, 80)
    spec = mk.make(c.rng, kind, shp)
    share = [0.0, 0.3, 0.7, 1.0][int(c.rng.integers(4))]
    o = np.where(c.rng.random(shp) < share, 0., np.where(spec.o == 0, 1.25, spec.o))
    c.count('no zero at all', not (o == 0).any())
    c.count('zero and nothing else', bool((o == 0).all()))
    if kind in ('gauss', 'gamma') and c.rng.random() < .3:
        o = np.where(o == 0, 0., o - 3)
    if o.dtype.kind == 'f' and c.words.random() < .4:       # zero is zero, with either sign
        o = np.where((o == 0) & (c.words.random(shp) < c.words.choice([.5, 1.])), -0., o)
        c.count('negative zeros', int((np.signbit(o) & (o == 0)).sum()))
    spec.o = o
    rnd = bool(c.index % 3)
    kw = {} if rnd and c.rng.random() < .5 else {'pit_randomize_zero_ranks': rnd}
    v = c.call('construct', spec.build, **kw)
    name = ['rank_hist', 'pit'][c.index % 2]
    r = c.call(name, getattr(v, name))
    c.count(name)
    c.say(kind=kind, shape=str(shp), randomize=rnd, f=spec.f, o=o)
    F = spec.cdf(o)
    z = o == 0
    c.sig(kind, shp, share, rnd)
    c.true(np.shape(r) == shp, 'shape %s' % (np.shape(r),))
    c.close('rank of cells that are not zero', r[~z], F[~z], 1e-8, 1e-9)
    c.count('other observations', (~z).sum())
    c.count('zero observations', z.sum())
    if rnd:
        c.true(np.all((r[z] >= 0) & (r[z] <= F[z] + 1e-9)), 'randomized rank outside [0, F(0)]')
        zz = z & (F > 1e-6)
        c.true(zz.sum() < 3 or np.any(np.abs(r[zz] - F[zz]) > 1e-12 * F[zz]), 'no rank of a zero is randomized')
    else:
        c.close('rank of zeros', r[z], F[z], 1e-8, 1e-9)
        c.count('exact zeros', z.sum())


def zeros(c):
    """Distribution of the randomized ranks over many cells, and between neighbours."""
    kind = ['hurdle', 'gauss', 'hurdle', 'gamma'][c.index % 4]
    n = 20000
    shp = (n,) if c.index % 2 else (n // 20, 20)
    spec = mk.make(c.rng, kind, shp)
    if kind == 'hurdle':
        spec.f['pop'] = c.rng.uniform(0, 0.95, shp)
    if kind == 'gamma':
        spec.f['shift'] = -spec.f['unshifted_mu'] * c.rng.uniform(0.3, 1.2, shp)
        spec.f['mu'] = spec.f['unshifted_mu'] + spec.f['shift']
        spec.o = c.rng.gamma(1.5, 4, shp) + 0.1
    o = np.where(c.rng.random(shp) < 0.6, 0., np.abs(spec.o) + 0.1)
    if c.index % 4 > 1:
        o = np.where((o == 0) & (c.words.random(shp) < (.5 if c.index % 4 == 2 else 1)), -0., o)
    spec.o = o
    v = c.call('construct', spec.build)
    r = c.call('rank_hist', v.rank_hist)
    F = spec.cdf(o)
    z = (o == 0) & (F > 1e-12)
    u = (r[z] / F[z])
    p = core.ks_uniform(u)
    c.say(kind=kind, zeros=int(z.sum()), p=float(p))
    c.sig('zeros', kind, shp)
    c.count('uniformity of zeros')
    c.true(p > P, 'randomized zero ranks are not uniform on [0, F(0)]: p=%.3g' % p)
    # neither end of [0, F(0)] is left out
    m = len(u)
    c.true(m * np.log1p(-u.min()) > np.log(P), 'no rank of %d zeros is drawn below %.3g of F(0)' % (m, u.min()))
    c.true(m * np.log(u.max()) > np.log(P), 'no rank of %d zeros is drawn above %.3g of F(0)' % (m, u.max()))
    c.count('ends of the range')
    rho = np.corrcoef(u[:-1], u[1:])[0, 1] * np.sqrt(len(u) - 1)
    c.true(abs(rho) < 7, 'randomized ranks of neighbouring cells depend on each other (%.1f sigma)' % rho)
    r2 = c.call('rank_hist', v.rank_hist)
    rho = np.corrcoef(u, r2[z] / F[z])[0, 1] * np.sqrt(len(u) - 1)
    c.true(abs(rho) < 7, 'randomized ranks repeat between calls (%.1f sigma)' % rho)


def calibration(c):
    kind = mk.DIST[c.index % 5]
    spec = mk.make(c.rng, kind, (60, 50))
    spec.o = spec.draw(c.rng)
    v = c.call('construct', spec.build)
    r = c.call('rank_hist', v.rank_hist)
    p = core.ks_uniform(r)
    c.say(kind=kind, p=float(p))
    c.sig('calibration', kind, c.index)
    c.count('calibration tests')
    c.true(p > P, 'ranks of observations drawn from the forecast are not uniform: p=%.3g' % p)


WORKLOADS = [('pit', pit, 150, 3000), ('zeros', zeros, 8, 100), ('calibration', calibration, 10, 150)]
WORKLOADS += [units.workload('C10'), units.far_workload('C10'), units.types_workload('C10')]
_L = core.larger(WORKLOADS, ['pit', 'units', 'far'], 8, 120)
_L += core.larger(WORKLOADS, ['pit'], 3, 40, 50000, 250000)
WORKLOADS += _L
