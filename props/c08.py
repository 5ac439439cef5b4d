"""Brier decomposition adds up."""
import numpy as np
from mon import core, mk, units
from PyAnEn.utils_special_boot import brier_decomp

RULE = 'distinct (source of probabilities, shape, averaging axes, event) with the identity evaluated for every kept cell'
REQUIRE = ['kept cells', 'identity with the Brier score', 'util function', 'verifier', 'empty bins', 'probability one', 'many members', 'probabilities on edges', 'probabilities beside edges']

EDGES = np.linspace(0, 1, 21)


def parts(f, o):
    """Reference: 20 equal-width bins; f has no value on an inner edge."""
    n = len(f)
    b = np.minimum((f * 20).astype(int), 19)
    ob = o.mean()
    rel = res = 0.0
    fb = np.array(f, float)
    for k in range(20):
        m = b == k
        if m.any():
            rel += m.sum() * (f[m].mean() - o[m].mean()) ** 2
            res += m.sum() * (o[m].mean() - ob) ** 2
            fb[m] = f[m].mean()
    return np.array([rel / n, res / n, ob * (1 - ob), np.mean((fb - o) ** 2)])


def judge(c, got, p, e, ax, exact=False):
    rel, res, unc = [np.asarray(x) for x in got]
    kshape, fr = core.rows(p, ax)
    _, orr = core.rows(e, ax)
    for x in (rel, res, unc):
        c.true(x.shape == kshape, 'shape %s instead of %s' % (x.shape, kshape))
        c.true(np.all(x >= -1e-12), 'negative component')
    for i, idx in enumerate(np.ndindex(*kshape)):
        w = parts(fr[i], orr[i])
        g = np.array([rel[idx], res[idx], unc[idx]], float)
        if exact:
            w[3] = np.mean((fr[i] - orr[i]) ** 2)
            c.count('identity with the Brier score')
        c.close('reliability-resolution+uncertainty of kept cell %s' % (idx,), g[0] - g[1] + g[2], w[3], 1e-8, 1e-9)
        c.close('uncertainty of kept cell %s' % (idx,), g[2], w[2], 1e-9, 1e-10)
        if not exact:
            c.close('components of kept cell %s' % (idx,), g, w[:3], 1e-8, 1e-9)
        c.count('kept cells')
        c.count('empty bins', len(np.unique((fr[i] * 20).astype(int))) < 20)
        c.count('probability one', (fr[i] == 1).any())


def off_edges(p):
    """Move values away from inner bin edges."""
    near = np.abs(p[..., None] - EDGES[1:-1]).min(-1) < 1e-6
    return np.where(near, p + 0.011, p)


def util(c):
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 1, 12, 300)
    ax = core.axes(c.rng, nd)
    p = c.rng.beta(0.6, 0.6, shp)
    q = c.rng.random(shp)
    p = np.where(q < 0.08, 0., np.where(q > 0.92, 1., p))
    p = off_edges(p)
    if c.index % 4 == 0:
        p = np.round(p, 1)
    e = c.rng.random(shp) < (p if c.rng.random() < .7 else 0.3)
    if c.index % 4 == 0:
        exact = True
    else:
        exact = False
    axa = None if ax is None else ((ax,) if isinstance(ax, int) else ax)
    c.say(shape=str(shp), avg_axis=str(ax), f=p)
    c.sig('util', shp, ax, exact)
    got = c.call('brier_decomp', brier_decomp, p, e, axa)
    c.count('util function')
    judge(c, got, p, e.astype(float), ax, exact)


def verifier(c):
    kind = mk.PROB[c.index % 6]
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 1, 10, 200)
    spec = mk.make(c.rng, kind, shp)
    exact = False
    if kind == 'ens':
        exact = c.rng.random() < 0.5 and not core.MANY
        m = int(c.rng.choice([1, 2, 4, 5, 10] if exact else [3, 7, 9, 11, 13]))
        f, a, _ = core.ensemble(c.rng, shp, m, 'normal')
        spec = mk.Spec('ens', f, core.values(c.rng, shp, 'normal') * 0 + c.rng.normal(f.mean(), f.std() + .1, shp), a)
    t = mk.threshold(c.rng, spec)
    ev = mk.event(c.rng, t)
    p = spec.prob(**ev)
    near = np.abs(p[..., None] - EDGES[1:-1]).min(-1) < 1e-7
    if near.any() and not exact:
        return
    ax = core.axes(c.rng, nd)
    v = c.call('construct', spec.build, avg_axis=ax)
    c.say(kind=kind, shape=str(shp), avg_axis=str(ax), event=str(ev))
    c.sig(kind, shp, ax, list(ev)[0])
    got = c.call('brier_decomp', v.brier_decomp, **ev)
    c.count('verifier')
    e = mk.observed(spec.o, **ev)
    judge(c, got, p, e, ax, exact)
    if exact:
        rel, res, unc = got
        c.close('verifier Brier score', c.call('brier', v.brier, **ev), rel - res + unc, 1e-8, 1e-9)


def edges(c):
    """A probability on the edge of two bins belongs to the upper one (edges that are exact in binary), also in bins of few samples."""
    n = int(c.rng.integers(4, 60))
    k = int(c.rng.integers(1, 4))
    edge = c.rng.choice([.25, .5, .75])
    p = edge + c.rng.choice([0, 0, .0078125, .03125, -.0078125, -.03125], n)
    e = c.rng.random(n) < .5
    e = np.where(p == edge, e, ~e if k == 1 else e)
    c.sig('edges', n, edge)
    judge(c, c.call('brier_decomp', brier_decomp, p, e), p, e.astype(float), None)
    c.count('probabilities on edges', int((p == edge).sum()))


def beside(c):
    """Probabilities beside the edge of two bins, a few rounding errors of single precision or less away."""
    n = int(c.rng.integers(4, 60))
    edge = EDGES[int(c.rng.integers(1, 20))]
    step = 10. ** -int(c.rng.integers(7, 12))
    low = c.rng.random(n) < .5
    p = edge + np.where(low, -step, c.rng.choice([step, .02], n))
    e = c.rng.random(n) < np.where(low, .8, .3)
    c.sig('beside', n, edge, step)
    judge(c, c.call('brier_decomp', brier_decomp, p, e), p, e.astype(float), None)
    c.count('probabilities beside edges', n)


WORKLOADS = [('beside', beside, 60, 800), ('edges', edges, 40, 500), ('util', util, 120, 3000), ('verifier', verifier, 120, 2500)]
WORKLOADS += [units.workload('C08'), units.types_workload('C08')]
_L = core.larger(WORKLOADS, ['util', 'verifier'], 8, 120)
_L += core.larger(WORKLOADS, ['util'], 3, 40, 50000, 250000)
WORKLOADS += _L
WORKLOADS += core.with_many(WORKLOADS, ['verifier'], 14, 250)
