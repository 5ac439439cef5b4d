"""Brier score compares one and the same event."""
import numpy as np
from mon import core, mk, units

RULE = 'distinct (verifier type, shape, event, whether some observation equals the threshold, averaging axes)'
REQUIRE = ['certain events', 'observation equals threshold', 'over', 'below', 'complement pairs', 'perfect ensembles', 'averages',
           'array thresholds', 'many members', 'single precision events', 'infinite observations', 'successive threshold arrays', 'thresholds next to an observation']


def brier(c):
    kind = mk.PROB[c.index % 6]
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 1, 5, 80)
    spec = mk.make(c.rng, kind, shp)
    t = mk.threshold(c.rng, spec)
    if c.index % 5 == 0:                                   # one threshold per cell, some equal to the observation
        t = np.where(c.rng.random(shp) < 0.5, np.asarray(spec.o, float), c.rng.uniform(-1, 8, shp))
        c.count('array thresholds')
    ev = mk.event(c.rng, t)
    tt = np.broadcast_to(np.asarray(t), shp)
    c.count('observation equals threshold', (spec.o == tt).any())
    c.count(list(ev)[0])
    c.say(kind=kind, shape=str(shp), event=str(ev), f=spec.f, o=spec.o)
    p = spec.prob(**{k: tt for k in ev})
    e = mk.observed(spec.o, **{k: tt for k in ev})
    want = (p - e) ** 2
    # cell by cell: an extra axis of length one is averaged
    one = spec.extra()
    ev1 = {k: (x[None] if isinstance(x, np.ndarray) else x) for k, x in ev.items()}
    v1 = c.call('construct', one.build, avg_axis=0)
    got = c.call('brier', v1.brier, **ev1)
    c.close('brier', got, want, 1e-8, 1e-8)
    c.true(np.all((got >= 0) & (got <= 1)), 'Brier score outside [0, 1]')
    comp = {('below' if 'over' in ev1 else 'over'): list(ev1.values())[0]}
    c.close('brier of the complement', c.call('brier', v1.brier, **comp), got, 1e-9, 1e-9)
    c.count('complement pairs')
    ax = core.axes(c.rng, nd)
    c.sig(kind, shp, list(ev)[0], (spec.o == tt).any(), ax)
    v = c.call('construct', spec.build, avg_axis=ax)
    c.close('mean brier over %s' % (ax,), c.call('brier', v.brier, **ev), core.reduce_rows(want, ax), 1e-8, 1e-8)
    c.count('averages')


def perfect(c):
    shp = core.shape(c.rng, None, 1, 5, 60)
    o = core.values(c.rng, shp)
    m = int(c.rng.integers(1, 9))
    f = np.stack([o] * m, axis=-1)
    v = c.call('construct', mk.CLS['ens'], f, o, ensemble_axis=-1)
    ts = [float(c.rng.choice(o.ravel())), 0.0, int(c.rng.integers(-5, 8)), np.array(o, float)]
    for t in ts:
        for k in ('over', 'below'):
            c.close('brier of a perfect ensemble, %s %s' % (k, core.brief(t, 2)), c.call('brier', v.brier, **{k: t}), 0.0, 0, 1e-15)
    c.count('perfect ensembles')
    c.sig('perfect', shp, m)


def decimals(c):
    """Data in tenths, stored in single precision, and thresholds in tenths: forecasts and observations take part in the same event."""
    shp = core.shape(c.rng, None, 1, 5, 60)
    o = (c.rng.integers(0, 12, shp) / 10).astype(np.float32)
    m = int(c.rng.integers(1, 9))
    f = np.stack([o] * m, axis=-1)
    if c.rng.random() < .3:
        f = f.astype(float)
    v = c.call('construct', mk.CLS['ens'], f, o, ensemble_axis=-1)
    t = int(c.rng.integers(1, 11)) / 10
    for t in (t, np.float64(t), np.float32(t)):
        for k in ('over', 'below'):
            c.close('brier of a perfect ensemble in tenths, %s %r' % (k, t), c.call('brier', v.brier, **{k: t}), 0.0, 0, 1e-15)
            rel = float(np.asarray(c.call('brier_decomp', v.brier_decomp, **{k: t})[0]))
            c.close('reliability component of a perfect ensemble in tenths, %s %r' % (k, t), rel, 0.0, 0, 1e-15)
    c.count('single precision events')
    c.sig('decimals', shp, m)


def certain(c):
    """Everything is below infinity: the event is certain, or impossible, for forecast and observation alike."""
    kind = mk.PROB[c.index % 6]
    shp = core.shape(c.rng, None, 1, 5, 60)
    spec = mk.make(c.rng, kind, shp)
    ax = core.axes(c.rng, len(shp))
    v = c.call('construct', spec.build, avg_axis=ax)
    for t in (np.inf, -np.inf, np.where(c.rng.random(shp) < .5, np.inf, -np.inf)):
        for k in ('over', 'below'):
            c.close('brier of a certain event, %s %s' % (k, core.brief(t, 2)), c.call('brier', v.brier, **{k: t}), 0.0 * core.reduce_rows(np.zeros(shp), ax), 0, 1e-15)
    c.count('certain events')
    c.sig('certain', kind, shp, ax)


def endless(c):
    """An infinite observation is above, or below, every number."""
    kind = mk.PROB[c.index % 6]
    shp = core.shape(c.rng, None, 1, 5, 60)
    spec = mk.make(c.rng, kind, shp)
    if np.asarray(spec.o).dtype.kind != 'f':
        spec.o = np.asarray(spec.o, float)
    hit = c.rng.random(shp) < .4
    spec.o = np.where(hit, c.rng.choice([-np.inf, np.inf], shp), spec.o)
    t = mk.threshold(c.rng, spec)
    if not np.isfinite(t):
        t = 1.5
    ev = mk.event(c.rng, t)
    ax = core.axes(c.rng, len(shp))
    v = c.call('construct', spec.build, avg_axis=ax)
    e = np.where(spec.o <= t, 1., 0.) if 'below' in ev else np.where(spec.o > t, 1., 0.)
    c.close('mean brier with infinite observations', c.call('brier', v.brier, **ev), core.reduce_rows((spec.prob(**ev) - e) ** 2, ax), 1e-8, 1e-8)
    c.count('infinite observations', int(hit.sum()))
    c.sig('endless', kind, shp, list(ev)[0])


def successive(c):
    """Thresholds that come from the same array, or differ by almost nothing, with observations on either side."""
    kind = mk.PROB[c.index % 6]
    shp = (36, 30) if c.index % 12 > 9 else core.shape(c.rng, None, 1, 5, 40)
    if kind == 'hurdle':
        spec = mk.make(c.rng, kind, shp)
    else:
        spec = mk.make(c.rng, kind, shp, distinct=True)
    o = np.array(np.asarray(spec.o, float))
    o = np.where(o == 0, 1.25, o)
    spec.o = o
    ax = core.axes(c.rng, len(shp))
    v = c.call('construct', spec.build, avg_axis=ax)
    t = o.copy()
    sticky = ['over', 'below'][int(c.rng.integers(2))]
    for step in range(12):
        how = ['at', 'above', 'below', 'far', 'mixed', 'at again'][step % 6]
        if how == 'at':
            t = o.copy()
        elif how == 'above':
            t[...] = np.nextafter(o, np.inf)
        elif how == 'below':
            t = np.nextafter(o, -np.inf)
        elif how == 'far':
            t[...] = o + c.rng.normal(0, 2, shp)
        elif how == 'mixed':
            t = o + c.rng.choice([-1, 0, 1], shp) * np.abs(o) * 10. ** -int(c.rng.integers(7, 15))
        else:
            t[...] = o
        for k in ([sticky] if step < 6 else ['over', 'below']):
            e = np.where(o > t, 1., 0.) if k == 'over' else np.where(o <= t, 1., 0.)
            c.close('mean brier, threshold array %s the observations' % how, c.call('brier', v.brier, **{k: t}),
                    core.reduce_rows((spec.prob(**{k: t}) - e) ** 2, ax), 1e-8, 1e-8)
            c.count('successive threshold arrays')
    one = float(o.flat[int(c.rng.integers(o.size))])
    for k in ('over', 'below'):
        for t in (one, np.nextafter(one, np.inf), np.nextafter(one, -np.inf), one * (1 + 1e-13), one * (1 - 1e-13)):
            e = np.where(o > t, 1., 0.) if k == 'over' else np.where(o <= t, 1., 0.)
            c.close('mean brier, %s %r' % (k, float(t)), c.call('brier', v.brier, **{k: float(t)}),
                    core.reduce_rows((spec.prob(**{k: float(t)}) - e) ** 2, ax), 1e-8, 1e-8)
            c.count('thresholds next to an observation')
    c.sig('successive', kind, shp, ax)


WORKLOADS = [('successive', successive, 36, 500), ('endless', endless, 36, 400), ('brier', brier, 180, 4000), ('certain', certain, 24, 300), ('decimals', decimals, 60, 800), ('perfect', perfect, 30, 400)]
WORKLOADS += [units.workload('C07'), units.far_workload('C07'), units.types_workload('C07')]
_L = core.larger(WORKLOADS, ['brier', 'perfect', 'units', 'far'], 8, 120)
_L += core.larger(WORKLOADS, ['brier'], 3, 40, 50000, 250000)
WORKLOADS += _L
WORKLOADS += core.with_many(WORKLOADS, ['brier'], 14, 250)
