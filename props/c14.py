"""Correlation is the Pearson coefficient of each kept cell."""
import numpy as np
from mon import core, mk, units
from PyAnEn.utils_special_boot import corr

RULE = 'distinct (verifier type, shape, averaging axes) with every kept cell compared with its own Pearson coefficient'
REQUIRE = ['kept cells', 'perfect correlations', 'rescaled', 'negated', 'verifier', 'util function', 'several kept axes', 'all axes', 'mixed types']


def pearson(a, b):
    a, b = a - a.mean(), b - b.mean()
    return float((a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum()))


def judge(c, got, f, o, ax):
    want = core.reduce2(f, o, ax, pearson)
    c.close('correlation', got, want, 1e-8, 1e-9)
    c.true(np.all(np.abs(np.asarray(got)) <= 1 + 1e-12), 'correlation outside [-1, 1]')
    c.count('kept cells', want.size)
    c.count('several kept axes', want.ndim > 1)
    c.count('all axes', want.ndim == 0)


def pick(c, lo=1):
    nd = int(c.rng.integers(lo, 5))
    while True:
        shp = core.shape(c.rng, nd, 1, 6, 250)
        ax = core.axes(c.rng, nd)
        if int(np.prod([shp[i] for i in core.norm_axes(ax, nd)])) >= 3:
            return shp, ax


def util(c):
    shp, ax = pick(c)
    o = c.rng.normal(c.rng.uniform(-5, 5), 2, shp)
    f = c.rng.uniform(-1, 1) * o + c.rng.normal(0, 2, shp)
    axa = None if ax is None else ((ax,) if isinstance(ax, int) else ax)
    c.say(shape=str(shp), avg_axis=str(ax), f=f, o=o)
    c.sig('util', shp, ax)
    c.count('util function')
    r = c.call('corr', corr, core.layout(c.rng, f), core.layout(c.rng, o), axa)
    judge(c, r, f, o, ax)
    a, b = float(c.rng.uniform(0.01, 100)), float(c.rng.uniform(-100, 100))
    c.close('corr after rescaling', c.call('corr', corr, a * f + b, o, axa), r, 1e-6, 1e-7)
    c.count('rescaled')
    c.close('corr after negating', c.call('corr', corr, f, -o, axa), -np.asarray(r), 1e-9, 1e-10)
    c.count('negated')


def verifier(c):
    kind = mk.KINDS[c.index % 7]
    shp, ax = pick(c)
    spec = mk.make(c.rng, kind, shp, distinct=True)
    v = c.call('construct', spec.build, avg_axis=ax)
    c.say(kind=kind, shape=str(shp), avg_axis=str(ax))
    c.sig(kind, shp, ax)
    f = v.f_determ() if kind == 'hurdle' else spec.determ()
    judge(c, c.call('corr', v.corr), f, spec.o, ax)
    c.count('verifier')


def perfect(c):
    """Forecasts on a line of the observations: the coefficient is plus or minus one, of constants it is undefined."""
    shp, ax = pick(c)
    o = c.rng.normal(c.rng.uniform(-5, 5), 2, shp)
    a = float(c.rng.choice([-1, 1])) * 10. ** float(c.rng.uniform(-3, 3))
    f = a * o + float(c.rng.choice([0, c.rng.uniform(-3, 3)]))
    c.sig('perfect', shp, ax, a > 0)
    if c.index % 2:
        got = c.call('corr', corr, f, o, None if ax is None else ((ax,) if isinstance(ax, int) else ax))
    else:
        got = c.call('corr', c.call('construct', mk.CLS['determ'], f, o, avg_axis=ax).corr)
    c.close('perfect correlation', got, np.sign(a) * np.ones(np.shape(got)), 0, 1e-9)
    c.count('perfect correlations')
    rng = np.random.default_rng([c.npseed, 3])
    if a > 0:       # almost perfect ones are told apart
        e = 10. ** float(rng.uniform(-5, -2))
        g = f + a * e * rng.normal(0, 1, shp)
        got = c.call('corr', corr, g, o, None if ax is None else ((ax,) if isinstance(ax, int) else ax))
        c.close('almost perfect correlation', 1 - np.asarray(got), 1 - core.reduce2(g, o, ax, pearson), 1e-3, 1e-12)


def mixed(c):
    """One side in single precision or whole numbers, the other in double precision: nothing is lost."""
    shp, ax = pick(c)
    m = float(c.rng.choice([0, 10, 100, 2000]))
    f = (m + c.rng.normal(0, 1, shp)).astype(np.float32) if c.index % 3 else c.rng.integers(0, 9, shp) + c.rng.permutation(int(np.prod(shp))).reshape(shp)
    o = c.rng.normal(0, 1, shp) + float(c.rng.uniform(-1, 1)) * f
    if c.rng.random() < .5:
        f, o = o, f
    if c.index % 2:
        got = c.call('corr', corr, f, o, None if ax is None else ((ax,) if isinstance(ax, int) else ax))
    else:
        got = c.call('corr', c.call('construct', mk.CLS['determ'], f, o, avg_axis=ax).corr)
    c.close('correlation of %s and %s' % (f.dtype, o.dtype), got, core.reduce2(f.astype(float), o.astype(float), ax, pearson), 1e-9, 1e-9)
    c.count('mixed types')
    c.sig('mixed', str(f.dtype), str(o.dtype), shp, ax)


WORKLOADS = [('mixed', mixed, 60, 800), ('util', util, 150, 3000), ('perfect', perfect, 40, 500), ('verifier', verifier, 105, 2100)]
WORKLOADS += [units.workload('C14'), units.far_workload('C14'), units.types_workload('C14')]
_L = core.larger(WORKLOADS, ['util', 'verifier', 'units', 'far'], 8, 120)
_L += core.larger(WORKLOADS, ['util'], 3, 40, 50000, 250000)
WORKLOADS += _L
