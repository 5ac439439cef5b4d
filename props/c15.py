"""Intersection over union counts joint and total event cells."""
import numpy as np
from mon import core, mk, units
from PyAnEn.utils_verify import iou_determ, iou_prob

RULE = 'distinct (form, verifier type, shape, averaging axes, event) with every kept cell counted'
REQUIRE = ['kept cells', 'value equals threshold', 'probability equals threshold', 'coinciding events', 'iou_determ', 'iou_prob',
           'over', 'below', 'many members', 'infinite values']


def judge(c, got, fe, oe, ax):
    def one(a, b):
        u = int((a | b).sum())
        return int((a & b).sum()) / u if u else np.nan
    want = core.reduce2(fe, oe, ax, one)
    got = np.asarray(got, float)
    c.true(got.shape == want.shape, 'shape %s instead of %s' % (got.shape, want.shape))
    ok = ~np.isnan(want)
    c.close('iou', got[ok] if got.ndim else got, want[ok] if want.ndim else (want if ok else got), 1e-12, 1e-12)
    c.true(np.all((got[ok] >= 0) & (got[ok] <= 1)), 'iou outside [0, 1]')
    c.count('kept cells', int(ok.sum()))


def determ(c):
    kind = mk.KINDS[c.index % 7]
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 1, 7, 150)
    ax = core.axes(c.rng, nd)
    spec = mk.make(c.rng, kind, shp)
    if kind in ('determ', 'ens'):
        q = lambda x: np.round(x * 2) / 2
        spec = mk.Spec(kind, q(c.rng.normal(2, 1.5, spec.f.shape)), q(c.rng.normal(2, 1.5, shp)), spec.ax)
    v = c.call('construct', spec.build, avg_axis=ax)
    f = v.f_determ() if kind == 'hurdle' else spec.determ()
    t = float(c.rng.choice(np.concatenate([f.ravel(), np.asarray(spec.o, float).ravel(), [2.0]])))
    k = ['over', 'below'][int(c.rng.integers(2))]
    c.count(k)
    c.count('value equals threshold', (f == t).any() or (spec.o == t).any())
    near = (np.abs(f - t) < 1e-9) & (f != t)
    if near.any():
        return
    fe, oe = (f > t, spec.o > t) if k == 'over' else (f < t, spec.o < t)
    c.say(kind=kind, shape=str(shp), avg_axis=str(ax), event='%s %r' % (k, t))
    c.sig('determ', kind, shp, ax, k)
    judge(c, c.call('iou_determ', v.iou_determ, **{k: t}), fe, oe, ax)
    c.count('iou_determ')
    if c.index % 3 == 0:
        axa = None if ax is None else (tuple(ax) if isinstance(ax, list) else ax)
        judge(c, c.call('iou_determ util', iou_determ, f, spec.o, axis=axa, **{k: t}), fe, oe, ax)


def prob(c):
    kind = mk.PROB[c.index % 6]
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 1, 7, 150)
    ax = core.axes(c.rng, nd)
    spec = mk.make(c.rng, kind, shp)
    if kind == 'ens':
        f, a, _ = core.ensemble(c.rng, shp, int(c.rng.choice([2, 4, 8])), 'normal')
        spec = mk.Spec('ens', f, c.rng.normal(f.mean(), f.std() + .1, shp), a)
    t = mk.threshold(c.rng, spec)
    k = ['over', 'below'][int(c.rng.integers(2))]
    p = spec.prob(**{k: t})
    pt = float(c.rng.choice([0.25, 0.5, 0.75])) if kind == 'ens' else float(np.round(c.rng.uniform(0, 1), 3))
    if c.rng.random() < .1:
        pt = float(c.rng.choice([0., 1.]))
    if ((np.abs(p - pt) < 1e-7) & (p != pt)).any() or (kind != 'ens' and (np.abs(p - pt) < 1e-7).any()):
        return
    c.count('probability equals threshold', (p == pt).any())
    oe = mk.observed(spec.o, **{k: t}).astype(bool)
    v = c.call('construct', spec.build, avg_axis=ax)
    if k == 'over':
        fe, kw = p > pt, {'over': (t, pt), 'below': (None, None)}
    else:
        fe, kw = p < pt, {'below': (t, pt), 'over': (None, None)}
    c.count(k)
    c.say(kind=kind, shape=str(shp), avg_axis=str(ax), event=str(kw))
    c.sig('prob', kind, shp, ax, k)
    judge(c, c.call('iou_prob', v.iou_prob, **kw), fe, oe, ax)
    c.count('iou_prob')
    if c.index % 3 == 0:
        axa = None if ax is None else (tuple(ax) if isinstance(ax, list) else ax)
        for kk, g in (('over', p > pt), ('below', p < pt)):
            judge(c, c.call('iou_prob util', iou_prob, p, oe, axis=axa, **{kk: pt}), g, oe, ax)


def same(c):
    shp = core.shape(c.rng, 2, 2, 8)
    o = c.rng.normal(0, 1, shp)
    v = c.call('construct', mk.CLS['determ'], o.copy(), o)
    for k in ('over', 'below'):
        t = float(np.median(o)) + (1e-9 if k == 'below' else -1e-9)
        c.close('iou of coinciding events', c.call('iou_determ', v.iou_determ, **{k: t}), 1.0, 0, 0)
    c.count('coinciding events')
    c.sig('same', shp)


def infinite(c):
    """Infinite forecasts and observations take part like other numbers."""
    shp = core.shape(c.rng, None, 1, 7, 100)
    ax = core.axes(c.rng, len(shp))
    some = lambda: np.where(c.rng.random(shp) < .4, c.rng.choice([-np.inf, np.inf], shp), c.rng.integers(0, 5, shp))
    f, o = some(), some()
    v = c.call('construct', mk.CLS['determ'], f, o, avg_axis=ax)
    for t in (2., np.inf, -np.inf):
        for k in ('over', 'below'):
            fe, oe = (f > t, o > t) if k == 'over' else (f < t, o < t)
            judge(c, c.call('iou_determ', v.iou_determ, **{k: t}), fe, oe, ax)
    c.count('infinite values')
    c.sig('infinite', shp, ax)


WORKLOADS = [('infinite', infinite, 40, 500), ('determ', determ, 140, 2800), ('prob', prob, 150, 3000), ('same', same, 12, 100)]
WORKLOADS += [units.workload('C15'), units.far_workload('C15'), units.types_workload('C15')]
_L = core.larger(WORKLOADS, ['determ', 'prob', 'units', 'far'], 8, 120)
_L += core.larger(WORKLOADS, ['determ', 'prob'], 3, 40, 50000, 250000)
WORKLOADS += _L
WORKLOADS += core.with_many(WORKLOADS, ['prob'], 14, 250)
