"""Error metrics average exactly the requested axes."""
import numpy as np
from mon import core, mk, units
from mon.core import reduce_rows

RULE = ('distinct (verifier type, shape, averaging axes as written, dtype, collapse function) whose four error metrics '
        'were all compared cell by cell with a plain-loop reference')
REQUIRE = ['multi-axis', 'negative axis', 'unordered axes', 'integer axis', 'list axes', 'values compared', 'exact hurdle mean', 'many members', 'infinite errors', 'mixed types', 'no axes']


def _trim(a, axis=None):
    s = np.sort(np.asarray(a, float), axis=axis)
    return np.take(s, s.shape[axis] // 2, axis=axis)


def _first(a, axis=None):
    return np.take(a, 0, axis=axis)


COLLAPSE = [np.mean, np.median, np.max, np.min, _trim, _first]


def errors(c):
    kind = ['determ', 'ens', 'determ', 'ens', 'gauss', 'gamma', 'hurdle', 'tgauss'][c.index % 8]
    nd = 1 + c.index % 4
    shp = core.shape(c.rng, nd, 1, 6)
    spec = mk.make(c.rng, kind, shp)
    ax = core.axes(c.rng, nd)
    if c.words.random() < .08:
        ax = () if c.words.random() < .5 else []        # nothing is averaged
        c.count('no axes')
    kw = {}
    if kind == 'ens':
        col = COLLAPSE[int(c.rng.integers(len(COLLAPSE)))]
        if col is not np.mean:
            kw['ensemble_collapse_func'] = col
        fd = np.apply_along_axis(lambda v: np.asarray(col(v.astype(float).reshape(1, -1), axis=1))[0], 0, spec.members())
    elif kind == 'hurdle':
        fd = None
    else:
        fd = spec.determ()
    c.say(kind=kind, shape=str(shp), avg_axis=str(ax), f=spec.f, o=spec.o)
    c.sig(kind, shp, ax, getattr(spec.f, 'dtype', ''), kw.get('ensemble_collapse_func', np.mean).__name__)
    if isinstance(ax, (tuple, list)):
        c.count('multi-axis', len(ax) > 1)
        c.count('unordered axes', list(ax) != sorted(ax))
        c.count('negative axis', any(a < 0 for a in ax))
        c.count('list axes', isinstance(ax, list))
    else:
        c.count('integer axis', ax is not None)
        c.count('negative axis', ax is not None and ax < 0)
    v = c.call('construct', spec.build, avg_axis=ax, **kw)
    got = c.call('f_determ', v.f_determ)
    if kind == 'hurdle':
        dx = spec.bin_width()
        c.true(np.all(np.abs(got - spec.determ()) <= dx), 'f_determ of a hurdle forecast is not its mean within the bin width',
               core.brief(got - spec.determ()))
        c.count('exact hurdle mean')
        fd = got
    t = core.tol(*[a for _, a in spec.arrays()])
    s = max(float(np.max(np.abs(fd))), float(np.max(np.abs(spec.o))), 1e-30)
    c.close('f_determ', got, fd, t, t * s)
    d = np.asarray(fd, float) - np.asarray(spec.o, float)
    c.close('error', c.call('error', v.error), reduce_rows(d, ax), t, t * s)
    c.close('sq_error', c.call('sq_error', v.sq_error), reduce_rows(d ** 2, ax), t, t * s * s)
    c.close('ab_error', c.call('ab_error', v.ab_error), reduce_rows(np.abs(d), ax), t, t * s)
    want = np.sqrt(reduce_rows(d ** 2, ax))
    c.close('rmse', c.call('rmse', v.rmse), want, 1e-7 if t < 1e-6 else 1e-3, max(np.sqrt(t) * s * 1e-3, t * s))


def big(c):
    """Larger arrays and longer reductions than the random small ones."""
    shp = tuple(int(x) for x in c.rng.integers(8, 40, 3))
    kind = ['determ', 'ens'][c.index % 2]
    spec = mk.make(c.rng, kind, shp, distinct=True)
    ax = core.axes(c.rng, 3)
    c.say(kind=kind, shape=str(shp), avg_axis=str(ax))
    c.sig('big', kind, shp, ax)
    v = c.call('construct', spec.build, avg_axis=ax)
    d = spec.determ() - spec.o
    s = float(np.abs(spec.f).max() + np.abs(spec.o).max())
    k = core.norm_axes(ax, 3)
    # reference without the axis argument: sum of slices
    m = np.moveaxis(d, k, list(range(len(k)))).reshape((-1,) + tuple(shp[i] for i in range(3) if i not in k))
    acc = np.zeros(m.shape[1:]); acc2 = np.zeros(m.shape[1:]); acc3 = np.zeros(m.shape[1:])
    for r in m:
        acc = acc + r; acc2 = acc2 + r * r; acc3 = acc3 + abs(r)
    n = m.shape[0]
    c.close('error', c.call('error', v.error), acc / n, 1e-9, 1e-9 * s)
    c.close('sq_error', c.call('sq_error', v.sq_error), acc2 / n, 1e-9, 1e-9 * s * s)
    c.close('ab_error', c.call('ab_error', v.ab_error), acc3 / n, 1e-9, 1e-9 * s)
    c.close('rmse', c.call('rmse', v.rmse), np.sqrt(acc2 / n), 1e-9, 1e-9 * s)


def infinite(c):
    """Infinite forecasts or observations give infinite errors."""
    shp = core.shape(c.rng, None, 1, 6)
    ax = core.axes(c.rng, len(shp))
    kind = ['determ', 'ens'][c.index % 2]
    rng = c.rng
    sign = float(rng.choice([-1, 1]))
    o = rng.normal(3, 2, shp)
    hit = rng.random(shp) < .25
    hit.flat[int(rng.integers(hit.size))] = True
    fd = rng.normal(3, 2, shp)
    if kind == 'ens':
        M = fd + rng.normal(0, 1, (3,) + shp)
        col = [np.mean, np.max, np.min][int(rng.integers(3))]
        M[int(rng.integers(3))][hit] = sign * np.inf
        fd = col(M, axis=0)
        v = c.call('construct', mk.CLS['ens'], np.moveaxis(M, 0, -1), o, ensemble_axis=-1, ensemble_collapse_func=col, avg_axis=ax)
    else:
        if c.index % 4 == 2:
            o = np.where(hit, sign * np.inf, o)
        else:
            fd = np.where(hit, sign * np.inf, fd)
        v = c.call('construct', mk.CLS['determ'], fd, o, avg_axis=ax)
    c.sig('infinite', kind, shp, ax)
    d = fd - o
    c.close('f_determ', c.call('f_determ', v.f_determ), fd, 1e-9, 1e-9)
    c.close('error', c.call('error', v.error), reduce_rows(d, ax), 1e-9, 1e-9)
    c.close('ab_error', c.call('ab_error', v.ab_error), reduce_rows(np.abs(d), ax), 1e-9, 1e-9)
    c.close('sq_error', c.call('sq_error', v.sq_error), reduce_rows(d ** 2, ax), 1e-9, 1e-9)
    c.close('rmse', c.call('rmse', v.rmse), np.sqrt(reduce_rows(d ** 2, ax)), 1e-9, 1e-9)
    c.count('infinite errors', int(hit.sum()))


def mixed(c):
    """Whole-number observations of fractional forecasts, and the other way round, each with a type of its own."""
    shp = core.shape(c.rng, None, 1, 6)
    ax = core.axes(c.rng, len(shp))
    kind = ['gauss', 'gamma', 'determ', 'ens'][c.index % 4]
    rng = c.rng
    ft, ot = [('f8', 'i8'), ('f8', 'i4'), ('f4', 'i8'), ('f4', 'f8'), ('f8', 'f4'), ('i4', 'f8'), ('i8', 'f4'), ('f8', '?'), ('f8', 'i2'), ('f8', 'f2')][int(rng.integers(10))]

    def draw(t, low=0.):
        x = rng.normal(3, 2, shp) if not low else rng.gamma(3, 2, shp) + low
        return (x > 2) if t == '?' else np.rint(x).astype(t) if t[0] == 'i' else x.astype(t)
    o = core.layout(rng, draw(ot))
    one = 1e-3 if 'f4' in (ft, ot) else 1e-9
    if kind == 'ens':
        M = np.stack([draw(ft) for _ in range(3)], -1)
        f, fd, kw = core.layout(rng, M), M.astype(float).mean(-1), {'ensemble_axis': -1}
    elif kind == 'determ':
        f = core.layout(rng, draw(ft))
        fd, kw = f.astype(float), {}
    else:
        mu = draw(ft, 1.)
        f, kw = {'mu': mu, 'sigma': np.ones(shp)}, {}
        if kind == 'gamma':
            f.update(shift=np.zeros(shp), unshifted_mu=mu)
        fd = mu.astype(float)
    v = c.call('construct', mk.CLS[kind], f, o, avg_axis=ax, **kw)
    d = fd - o.astype(float)
    tol = 1e-2 if ot == 'f2' else one
    c.close('error with %s and %s' % (ft, ot), c.call('error', v.error), reduce_rows(d, ax), tol, tol)
    c.close('ab_error with %s and %s' % (ft, ot), c.call('ab_error', v.ab_error), reduce_rows(np.abs(d), ax), tol, tol)
    c.close('sq_error with %s and %s' % (ft, ot), c.call('sq_error', v.sq_error), reduce_rows(d ** 2, ax), tol, tol)
    c.close('rmse with %s and %s' % (ft, ot), c.call('rmse', v.rmse), np.sqrt(reduce_rows(d ** 2, ax)), tol, tol)
    c.close('mse with %s and %s' % (ft, ot), c.call('rmse', v.rmse) ** 2, c.call('sq_error', v.sq_error), tol, tol)
    c.count('mixed types')
    c.sig('mixed', kind, ft, ot, shp, ax)


WORKLOADS = [('mixed', mixed, 80, 1000), ('infinite', infinite, 40, 500), ('errors', errors, 320, 6000), ('big', big, 12, 150)]
WORKLOADS += [units.workload('C01'), units.far_workload('C01'), units.types_workload('C01')]
_L = core.larger(WORKLOADS, ['errors', 'units', 'far'], 8, 120)
_L += core.larger(WORKLOADS, ['errors'], 3, 40, 50000, 250000)
WORKLOADS += _L
WORKLOADS += core.with_many(WORKLOADS, ['errors'], 14, 250)
