"""The same data in another unit: every value, parameter and threshold multiplied by a power of two.

Multiplying by a power of two commutes with rounding, so results must scale exactly as their dimension says,
whatever the magnitude. Absolute tolerances, rounding to decimals and clipping in the code under test do not.
"""
import numpy as np
from . import core, mk


def factor(rng):
    k = int(rng.integers(8, 31))
    return 2.0 ** (k if rng.random() < .5 else -k)


def scaled(spec, s):
    if isinstance(spec.f, dict):
        f = {k: (v if k == 'pop' else np.asarray(v) * s) for k, v in spec.f.items()}
    else:
        f = np.asarray(spec.f) * s
    kw = dict(spec.kw)
    if 'integration_range' in kw:
        kw['integration_range'] = tuple(x * s for x in kw['integration_range'])
    return mk.Spec(spec.kind, f, np.asarray(spec.o) * s, spec.ax, **kw)


def data(c, kind, lo=2, hi=40):
    nd = int(c.rng.integers(1, 4))
    while True:
        shp = core.shape(c.rng, nd, 1, 9, hi)
        if np.prod(shp) >= lo:
            break
    spec = mk.make(c.rng, kind, shp, distinct=bool(c.rng.random() < .5))
    # whole numbers and single precision would not survive every factor
    f = {k: np.asarray(v, float) for k, v in spec.f.items()} if isinstance(spec.f, dict) else np.asarray(spec.f, float)
    return mk.Spec(spec.kind, f, np.asarray(spec.o, float), spec.ax, **spec.kw), nd


def compare(c, kind, calls, axes=True, build=None, lengths=(), spec=None, rtol=1e-9):
    """calls(spec, rng) -> [(metric, kwargs, power)]; thresholds in kwargs are scaled; lengths: options that scale."""
    if spec is None:
        spec, nd = data(c, kind)
    else:
        nd = spec.o.ndim
    s = factor(c.rng)
    kw = dict(build(c, spec) if build else {})
    if axes:
        kw['avg_axis'] = core.axes(c.rng, nd)
    kws = dict(kw)
    for k in lengths:
        if kws.get(k) is not None:
            kws[k] = kws[k] * s
    a = c.call('construct', spec.build, **kw)
    b = c.call('construct', scaled(spec, s).build, **kws)
    c.say(kind=kind, shape=str(spec.o.shape), unit=s, options=str(kw))
    for name, args, power in calls(spec, c.rng):
        sargs = {}
        for k, v in args.items():
            if k in ('over', 'below') and v is not None:
                v = (v[0] * s if v[0] is not None else None, v[1]) if isinstance(v, tuple) else v * s
            sargs[k] = v
        np.random.seed(c.npseed)
        x = core.flatten(c.call(name, getattr(a, name), **args))
        np.random.seed(c.npseed)
        y = core.flatten(c.call(name + ' in another unit', getattr(b, name), **sargs))
        c.true(len(x) == len(y), '%s: %d parts in another unit instead of %d' % (name, len(y), len(x)))
        for i, (p, q) in enumerate(zip(x, y)):
            p = np.asarray(p, float) * s ** power
            m = float(np.nanmax(np.abs(p))) if p.size and np.isfinite(p).any() else 0.
            c.close('%s of %s in units of %g (part %d)' % (name, kind, s, i), q, p, rtol, 1e-12 * m if np.isfinite(m) else 0.)
        c.sig('units', kind, name, spec.o.shape, str(kw.get('avg_axis')), int(np.log2(s)))
        c.count('other units')


def _t(s, r):
    return float(mk.threshold(r, s))


def _cdf(s, r):
    t = _t(s, r)
    a = r.uniform(s.o.min() - 1, s.o.max() + 1, s.o.shape)
    return [('cdf', {'below': t}, 0), ('cdf', {'over': t}, 0), ('cdf', {'below': a}, 0), ('cdf', {'over': a}, 0)]


def _mid(s, r):
    o = np.unique(s.o)
    return mk.event(r, float((o[0] + o[-1]) / 2 if o.size > 1 else o[0]))


def _bins(s, r):
    return [('variance', {}, 2), ('binned_spread_skill', {'nbins': int(r.integers(1, min(s.o.size, 6) + 1))}, 1)]


def _iou(s, r):
    t = _t(s, r)
    out = [('iou_determ', mk.event(r, t), 0)]
    if s.kind != 'determ':
        p = float(r.uniform(.1, .9))
        out += [('iou_prob', {'over': (t, p), 'below': (None, None)}, 0), ('iou_prob', {'below': (t, p), 'over': (None, None)}, 0)]
    return out


def _resampled(s, r):
    out = [('error', {}, 1), ('sq_error', {}, 2), ('ab_error', {}, 1), ('rmse', {}, 1)]
    if s.kind not in ('determ', 'tgamma', 'hurdle'):
        out.append(('crps', {}, 1))
    return out


def _members(c, s):
    return {'n_sample_members': int(c.rng.integers(1, 9)),
            'clip_member_to_zero': float(c.rng.uniform(.2, 3)) if c.rng.random() < .5 else None}


def _sampled(s, r):
    return [('prob_to_ens', {}, 1), ('spread', {}, 1)]


SAMPLED = ['gauss', 'tgauss', 'gamma', 'tgamma']
TABLE = {
    'C01': (mk.KINDS, lambda s, r: [('error', {}, 1), ('sq_error', {}, 2), ('ab_error', {}, 1), ('rmse', {}, 1), ('f_determ', {}, 1)], {}),
    'C03': (['ens'], lambda s, r: [('crps', {}, 1)], {}),
    'C04': (['gauss', 'tgauss', 'gamma'], lambda s, r: [('crps', {}, 1)], {}),
    'C05': (mk.DIST, _cdf, {'axes': False}),
    'C06': (['ens'], _cdf, {'axes': False}),
    'C07': (mk.PROB, lambda s, r: [('brier', mk.event(r, _t(s, r)), 0)], {}),
    'C08': (mk.PROB, lambda s, r: [('brier_decomp', mk.event(r, _t(s, r)), 0)], {}),
    'C09': (['ens'], lambda s, r: [('rank_hist', {}, 0)], {}),
    'C10': (mk.DIST, lambda s, r: [('pit', {}, 0)], {'axes': False}),
    'C11': (mk.PROB, lambda s, r: [('reliability', dict(_mid(s, r), nbins=int(r.integers(2, 12))), 0)], {'axes': False}),
    'C12': (mk.PROB, lambda s, r: [('roc', _mid(s, r), 0)], {'axes': False}),
    'C13': (mk.PROB, _bins, {'axes': False}),
    'C14': (mk.KINDS, lambda s, r: [('corr', {}, 0)], {'axes': False}),
    'C15': (mk.KINDS, _iou, {}),
    'C16': (['determ', 'ens', 'gauss', 'tgauss', 'gamma'], _resampled,
            {'build': lambda c, s: {'boot_samples': int(c.rng.integers(1, 20))}}),
    'C23': (SAMPLED, _sampled, {'build': _members, 'lengths': ('clip_member_to_zero',)}),
    'C24': (['hurdle'], lambda s, r: [('crps', {}, 1), ('f_determ', {}, 1), ('variance', {}, 2)], {'axes': False}),
}


def workload(prop):
    kinds, calls, opts = TABLE[prop]

    def units(c):
        compare(c, kinds[c.index % len(kinds)], calls, **opts)
    return 'units', units, 42, 800


# ------------------------------------------------------------------------------ far from zero

def _grid(a):
    """Rounded to multiples of 2^-10, within 2^12: such numbers survive an offset of up to 2^30."""
    return np.clip(np.round(np.asarray(a, float) * 1024), -2 ** 22, 2 ** 22) / 1024


def on_grid(spec):
    if isinstance(spec.f, dict):
        f = {k: _grid(v) for k, v in spec.f.items()}
        for k in ('sigma', 'unshifted_mu'):
            if k in f:
                f[k] = np.maximum(f[k], 1 / 16)
        if 'shift' in f:
            f['shift'] = np.abs(f['shift'])
            f['mu'] = f['unshifted_mu'] + f['shift']
    else:
        f = _grid(spec.f)
    o = _grid(spec.o)
    if isinstance(spec.f, dict):
        o = np.where(o == 0, 1 / 1024, o)      # the PIT treats a zero observation in its own way
    return mk.Spec(spec.kind, f, o, spec.ax, **spec.kw)


def moved(spec, k):
    if isinstance(spec.f, dict):
        f = {n: (v + k if n in ('mu', 'shift') else v) for n, v in spec.f.items()}
    else:
        f = spec.f + k
    return mk.Spec(spec.kind, f, spec.o + k, spec.ax, **spec.kw)


def compare_far(c, kind, calls, axes=True, build=None):
    """calls(spec, rng) -> [(metric, kwargs, moves)]: results that move with the data are marked."""
    spec, nd = data(c, kind)
    spec = on_grid(spec)
    k = 2.0 ** int(c.rng.integers(15, 27))
    kw = dict(build(c, spec) if build else {})
    if axes:
        kw['avg_axis'] = core.axes(c.rng, nd)
    a = c.call('construct', spec.build, **kw)
    b = c.call('construct', moved(spec, k).build, **kw)
    c.say(kind=kind, shape=str(spec.o.shape), offset=k, options=str(kw))
    for name, args, moves in calls(spec, c.rng):
        near, far = dict(args), dict(args)
        for n in ('over', 'below'):
            v = args.get(n)
            if v is not None:
                t = v[0] if isinstance(v, tuple) else v
                if t is None:
                    continue
                t = _grid(t) if isinstance(t, np.ndarray) else float(_grid(t))
                near[n] = (t, v[1]) if isinstance(v, tuple) else t
                far[n] = (t + k, v[1]) if isinstance(v, tuple) else t + k
        np.random.seed(c.npseed)
        x = core.flatten(c.call(name, getattr(a, name), **near))
        np.random.seed(c.npseed)
        y = core.flatten(c.call(name + ' far from zero', getattr(b, name), **far))
        c.true(len(x) == len(y), '%s: %d parts far from zero instead of %d' % (name, len(y), len(x)))
        for i, (p, q) in enumerate(zip(x, y)):
            p = np.asarray(p, float) + (k if moves else 0)
            # one subtraction per value loses k*2^-52; a difference of squares would lose k*k*2^-52
            big = float(np.nanmax(np.abs(p))) if p.size and np.isfinite(p).any() and not moves else 1.
            c.close('%s of %s at an offset of %g (part %d)' % (name, kind, k, i), q, p, 1e-9, 2. ** -46 * k * max(1., big))
        c.sig('far', kind, name, spec.o.shape, str(kw.get('avg_axis')), int(np.log2(k)))
        c.count('far from zero')


def _far_bins(s, r):
    v = np.sort(np.asarray(s.var(), float).ravel())
    if v.size < 2 or np.diff(v).min() < 1e-5 * (1 + v[-1]):
        return [('variance', {}, 0)]        # samples of (nearly) equal variance may be binned either way
    return [('variance', {}, 0), ('binned_spread_skill', {'nbins': int(r.integers(1, min(s.o.size, 6) + 1))}, 0)]


ADD = ['gauss', 'gamma']
FAR = {
    'C01': (['determ', 'ens'] + ADD, lambda s, r: [('error', {}, 0), ('sq_error', {}, 0), ('ab_error', {}, 0), ('rmse', {}, 0), ('f_determ', {}, 1)], {}),
    'C03': (['ens'], lambda s, r: [('crps', {}, 0)], {}),
    'C04': (ADD, lambda s, r: [('crps', {}, 0)], {}),
    'C05': (ADD, lambda s, r: _cdf(s, r), {'axes': False}),
    'C06': (['ens'], lambda s, r: _cdf(s, r), {'axes': False}),
    'C07': (['ens'] + ADD, lambda s, r: [('brier', mk.event(r, _t(s, r)), 0)], {}),
    'C09': (['ens'], lambda s, r: [('rank_hist', {}, 0)], {}),
    'C10': (ADD, lambda s, r: [('pit', {}, 0)], {'axes': False}),
    'C13': (['ens'] + ADD, _far_bins, {'axes': False}),
    'C14': (['determ', 'ens'] + ADD, lambda s, r: [('corr', {}, 0)], {'axes': False}),
    'C15': (['determ', 'ens'] + ADD, _iou, {}),
    'C16': (['determ', 'ens'] + ADD, lambda s, r: [(n, a, 0) for n, a, _ in _resampled(s, r)],
            {'build': lambda c, s: {'boot_samples': int(c.rng.integers(1, 20))}}),
    'C23': (ADD, lambda s, r: [('prob_to_ens', {}, 1), ('spread', {}, 0)], {'build': lambda c, s: {'n_sample_members': int(c.rng.integers(1, 9))}}),
}


def far_workload(prop):
    kinds, calls, opts = FAR[prop]

    def far(c):
        compare_far(c, kinds[c.index % len(kinds)], calls, **opts)
    return 'far', far, 42, 800


# ------------------------------------------------------------------------------ other number types

EXACT = {'C08', 'C09', 'C11', 'C12', 'C13', 'C15'}      # results that jump: only changes of type that leave probabilities as they are


def _eighths(a):
    return np.clip(np.round(np.asarray(a, float) * 8), -2 ** 15, 2 ** 15) / 8


def plain(c, kind, whole):
    """Data whose values single precision (or integers, if whole) represent exactly."""
    spec, nd = data(c, kind)
    g = np.round if whole else _eighths
    if isinstance(spec.f, dict):
        f = dict(spec.f)
        lo = 1. if whole else .25
        if 'shift' in f:
            um, sh = np.maximum(g(f['unshifted_mu']), lo), g(f['shift'])
            sh = np.maximum(sh, -np.floor(um / 2))
            f = {'mu': um + sh, 'sigma': np.maximum(g(f['sigma']), lo), 'shift': sh, 'unshifted_mu': um}
        else:
            if 'pop' in f:
                f['pop'] = _eighths(f['pop'])
            f['mu'] = np.maximum(g(f['mu']), lo) if 'pop' in f else g(f['mu'])
            f['sigma'] = np.maximum(g(f['sigma']), lo)
    else:
        f = g(np.clip(spec.f, -4000, 4000))
    kw = dict(spec.kw)
    if c.rng.random() < .5:
        kw.pop('integration_range', None)
    return mk.Spec(kind, f, g(np.clip(spec.o, -4000, 4000)), spec.ax, **kw), nd


def retyped(c, spec, whole, exact):
    """Same values; observations, forecasts or both of another type. -> spec, tolerance, label"""
    what = str(c.rng.choice(['o', 'f', 'both']))
    t = c.rng.choice([np.int64, np.int32]) if whole else np.float32
    if exact and not whole and spec.kind not in ('ens', 'determ'):
        what = 'o'
    f, o = spec.f, spec.o
    if what != 'f':
        o = o.astype(t)
    if what != 'o':
        f = {k: (v if k == 'pop' and whole else v.astype(t)) for k, v in f.items()} if isinstance(f, dict) else f.astype(t)
    single = not whole and (what != 'o' or spec.kind == 'hurdle' or not exact)
    return mk.Spec(spec.kind, f, o, spec.ax, **spec.kw), (2e-4 if single else 1e-9), '%s as %s' % (what, np.dtype(t).name)


def compare_types(c, prop, kind, calls, axes=True, build=None, lengths=()):
    whole = bool(c.rng.random() < .4)
    exact = prop in EXACT
    if prop == 'C13' and kind == 'ens' and not whole:
        whole = True
    spec, nd = plain(c, kind, whole)
    other, rtol, lab = retyped(c, spec, whole, exact)
    if exact and rtol > 1e-6:
        rtol = 1e-6
    kw = dict(build(c, spec) if build else {})
    if axes:
        kw['avg_axis'] = core.axes(c.rng, nd)
    a = c.call('construct', spec.build, **kw)
    b = c.call('construct', other.build, **kw)
    c.say(kind=kind, shape=str(spec.o.shape), types=lab, options=str(kw))
    for name, args, power in calls(spec, c.rng):
        for k in ('over', 'below'):
            if isinstance(args.get(k), float):
                args[k] = float(_eighths(args[k]))
            elif isinstance(args.get(k), tuple) and args[k][0] is not None:
                args[k] = (float(_eighths(args[k][0])), args[k][1])
        np.random.seed(c.npseed)
        x = core.flatten(c.call(name, getattr(a, name), **args))
        np.random.seed(c.npseed)
        y = core.flatten(c.call('%s with %s' % (name, lab), getattr(b, name), **args))
        c.true(len(x) == len(y), '%s: %d parts with %s instead of %d' % (name, len(y), lab, len(x)))
        for i, (p, q) in enumerate(zip(x, y)):
            p = np.asarray(p, float)
            m = float(np.nanmax(np.abs(p))) if p.size and np.isfinite(p).any() else 0.
            m = max(m, 1.) if power != 2 else max(m, 16.)
            c.close('%s of %s with %s (part %d)' % (name, kind, lab, i), np.asarray(q, float), p, rtol, rtol * m if np.isfinite(m) else 0.)
        c.sig('types', kind, name, spec.o.shape, lab)
        c.count('other number types')


def types_workload(prop):
    kinds, calls, opts = TABLE[prop]

    def types(c):
        compare_types(c, prop, kinds[c.index % len(kinds)], calls, **opts)
    return 'types', types, 42, 800
