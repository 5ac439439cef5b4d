"""Each kept cell depends only on its own data."""
import numpy as np
from mon import core, mk

RULE = ('distinct (verifier type, metric, shape, averaging axes) for which the kept cells were recomputed on their own '
        'slice, or compared before and after changing the data of another kept cell')
REQUIRE = ['resampled cells', 'cells of constant spread', 'slices compared', 'perturbations', 'distant perturbations', 'binned_spread_skill', 'brier_decomp', 'corr', 'crps', 'iou_prob', 'spread',
           'reliability-free', 'cells of the same numbers',
           'cells with equal forecasts', 'cells with equal observations']


def metric_list(c, spec, nsamp):
    t = mk.threshold(c.rng, spec)
    ev = mk.event(c.rng, t)
    out = []
    k = spec.kind
    for m in ('error', 'sq_error', 'ab_error', 'rmse', 'corr'):
        out.append((m, {}))
    out.append(('iou_determ', {'over': float(np.median(spec.o))}))
    out.append(('iou_determ', {'below': float(np.median(spec.o))}))
    if k in mk.PROB:
        if k != 'tgamma':
            out.append(('crps', {}))
        out.append(('brier', ev))
        out.append(('brier_decomp', ev))
        p = float(np.round(c.rng.uniform(0.05, 0.95), 3))
        out.append(('iou_prob', {'over': (t, p), 'below': (None, None)} if c.rng.random() < .5 else
                    {'below': (t, p), 'over': (None, None)}))
        out.append(('binned_spread_skill', {'nbins': int(c.rng.integers(1, min(nsamp, 5) + 1))}))
    if k == 'ens':
        out.append(('spread', {}))
    return out


def cells(res, idx, name):
    """The part of the result that belongs to kept cell idx."""
    if name == 'brier_decomp':
        return [np.asarray(r)[idx] for r in res]
    if name == 'binned_spread_skill':
        return [np.asarray(r)[idx] for r in res]
    return [np.asarray(res)[idx]]


def setup(c, minsamp=3):
    kind = mk.KINDS[c.index % 7]
    while True:
        nd = int(c.rng.integers(2, 5))
        shp = core.shape(c.rng, nd, 1, 5, 120)
        ax = core.axes(c.rng, nd, allow_none=False, proper=True)
        k = core.norm_axes(ax, nd)
        nsamp = int(np.prod([shp[i] for i in k]))
        if nsamp >= minsamp:
            break
    spec = mk.make(c.rng, kind, shp, distinct=True)
    kept = tuple(shp[i] for i in range(nd) if i not in k)
    return kind, shp, ax, nsamp, spec, kept


def slices(c):
    kind, shp, ax, nsamp, spec, kept = setup(c)
    c.say(kind=kind, shape=str(shp), avg_axis=str(ax))
    idxs = list(np.ndindex(*kept))
    if len(idxs) > 6:
        idxs = [idxs[i] for i in c.rng.permutation(len(idxs))[:6]]
    if kind in ('gauss', 'tgauss', 'gamma', 'tgamma') and c.words.random() < .5:
        spec = spec.copy()      # cells whose forecasts all have the same spread
        for idx in idxs[:int(c.words.integers(1, 4))]:
            ci = core.cell_index(ax, len(shp), idx)
            spec.f['sigma'][ci] = float(np.ravel(spec.f['sigma'][ci])[0])
            c.count('cells of constant spread')
    v = c.call('construct', spec.build, avg_axis=ax)
    for name, kw in metric_list(c, spec, nsamp):
        whole = c.call(name, getattr(v, name), **kw)
        c.sig(kind, name, shp, ax)
        c.count(name)
        parts = whole if isinstance(whole, tuple) else (whole,)
        for p in parts:
            want = kept + ((kw['nbins'],) if name == 'binned_spread_skill' else ())
            c.true(np.shape(p) == want, '%s has shape %s instead of %s' % (name, np.shape(p), want))
        for idx in idxs:
            sub = spec.slice(core.cell_index(ax, len(shp), idx))
            one = c.call(name + ' on slice', getattr(sub.build(), name), **kw)
            one = [np.asarray(x) for x in (one if isinstance(one, tuple) else (one,))]
            got = cells(whole, idx, name)
            if name == 'corr':
                got = [np.asarray(x) for x in got]
            for g, w in zip(got, one):
                c.close('%s of kept cell %s' % (name, idx), g, w, 1e-7, 1e-9)
            c.count('slices compared')
    c.count('reliability-free')


def perturb(c):
    kind, shp, ax, nsamp, spec, kept = setup(c)
    if int(np.prod(kept)) < 2:
        kept_n = 1
    c.say(kind=kind, shape=str(shp), avg_axis=str(ax))
    idxs = list(np.ndindex(*kept))
    victim = idxs[int(c.rng.integers(len(idxs)))]
    mets = metric_list(c, spec, nsamp)
    v = c.call('construct', spec.build, avg_axis=ax)
    before = [c.call(n, getattr(v, n), **kw) for n, kw in mets]
    other = spec.copy()
    ci = core.cell_index(ax, len(shp), victim)
    sub = other.slice(ci)
    far = kind != 'hurdle' and c.rng.random() < .5
    by, to = float(c.rng.uniform(1.1, 3)), float(c.rng.uniform(0.1, 2))
    if far:                # a cell in another unit, or far away from all others
        by, to = by * 10. ** int(c.rng.integers(3, 11)), to * 10. ** int(c.rng.integers(3, 14))
        c.count('distant perturbations')
    for _, a in sub.arrays():
        a[...] = a[...] * by + (to if kind in ('determ', 'ens') else 0)
    if kind == 'hurdle':
        other.f['pop'][ci] = np.clip(other.f['pop'][ci] / 3, 0, 1)
    v2 = c.call('construct', other.build, avg_axis=ax)
    for (n, kw), b in zip(mets, before):
        a = c.call(n, getattr(v2, n), **kw)
        c.sig('perturb', kind, n, shp, ax)
        for idx in idxs:
            if idx == victim:
                continue
            for x, y in zip(cells(b, idx, n), cells(a, idx, n)):
                c.close('%s of cell %s after changing cell %s' % (n, idx, victim), y, x, 1e-9, 1e-12)
            c.count('perturbations')


def intervals(c):
    """Every kept cell has values in a range of its own: so have its resampled intervals."""
    kind = mk.KINDS[c.index % 7]
    nd = int(c.rng.integers(2, 5))
    shp = core.shape(c.rng, nd, 1, 5, 120)
    ax = core.axes(c.rng, nd, allow_none=False, proper=True)
    k = core.norm_axes(ax, nd)
    kept = tuple(shp[i] for i in range(nd) if i not in k)
    lab = np.arange(1, int(np.prod(kept)) + 1).reshape([1 if i in k else n for i, n in enumerate(shp)]) * np.ones(shp)
    val = lab + c.rng.uniform(.1, .3, shp)
    o = np.zeros(shp)
    c.env(boot_repeats=int(c.rng.integers(1, 12)))
    if kind == 'determ':
        spec = mk.Spec('determ', val, o)
    elif kind == 'ens':
        m = int(c.rng.integers(2, 5))
        spec = mk.Spec('ens', val[None] + c.rng.uniform(-.01, .01, (m,) + shp), o, 0)
    elif kind in ('gauss', 'tgauss'):
        spec = mk.Spec(kind, {'mu': val, 'sigma': np.full(shp, .001)}, o)
    elif kind in ('gamma', 'tgamma'):
        spec = mk.Spec(kind, {'mu': val, 'sigma': np.full(shp, .01), 'shift': np.zeros(shp), 'unshifted_mu': val}, o)
    else:
        spec = mk.Spec('hurdle', {'pop': np.ones(shp), 'mu': val, 'sigma': np.full(shp, .05)}, o,
                       integration_range=(-1., float(val.max()) + 1.), n_approx_bins=40 * (int(val.max()) + 2))
    v = c.call('construct', spec.build, avg_axis=ax, boot_samples=int(c.rng.integers(1, 9)))
    want = np.arange(1, int(np.prod(kept)) + 1).reshape(kept)
    for name in ('error', 'ab_error', 'sq_error') + (('crps',) if kind not in ('determ', 'tgamma') else ()):
        got = np.asarray(c.call(name, getattr(v, name)))
        c.true(got.shape == (3,) + kept, '%s has shape %s instead of %s' % (name, got.shape, (3,) + kept))
        if name == 'sq_error':
            got = np.sqrt(got)
        c.true(np.all((got > want) & (got < want + .4)),
               '%s intervals of %s %s leave the range of their own cell' % (name, kind, core.brief(got)),
               'cells %s' % core.brief(want))
        c.sig('intervals', kind, name, shp, ax)
        c.count('resampled cells', got[0].size)


def orders(c):
    """Kept cells that hold the same numbers in different orders."""
    kind = ['gauss', 'ens', 'gamma', 'determ', 'tgauss', 'hurdle'][c.index % 6]
    n, k = int(c.rng.integers(4, 9)), int(c.rng.integers(2, 6))
    flip = bool(c.rng.random() < .5)
    shp = (k, n) if flip else (n, k)
    spec = mk.make(c.rng, kind, shp, distinct=True).copy()
    spec.o = np.array(spec.o, float)
    # the numbers of the first cell, shuffled differently in every other one; observations or forecasts or both
    # (same f, same o: these are equal in all cells, also in their order)
    which = ['f', 'o', 'both separately', 'same f', 'same o'][c.index // 6 % 5]
    cell = lambda a, j: a[(j,) if flip else (slice(None), j)]
    for j in range(1, k):
        i = c.rng.permutation(n)
        if which == 'same f':
            i = np.arange(n)
        if which != 'o':
            if isinstance(spec.f, dict):
                for key in spec.f:
                    spec.f[key] = np.array(spec.f[key])
                    cell(spec.f[key], j)[...] = cell(spec.f[key], 0)[i]
            elif kind == 'ens':
                M = spec.members()
                M = np.array(M)
                for m in M:
                    cell(m, j)[...] = cell(m, 0)[i]
                spec = mk.Spec('ens', np.moveaxis(M, 0, -1).copy(), spec.o, -1)
            else:
                spec.f = np.array(spec.f)
                cell(spec.f, j)[...] = cell(spec.f, 0)[i]
        if which != 'f':
            i = np.arange(n) if which == 'same o' else c.rng.permutation(n)
            cell(spec.o, j)[...] = cell(spec.o, 0)[i]
            c.count('cells with equal forecasts', which == 'same f')
            c.count('cells with equal observations', which == 'same o')
    ax = int(flip)
    c.say(kind=kind, shape=str(shp), same=which)
    v = c.call('construct', spec.build, avg_axis=ax)
    for name, kw in metric_list(c, spec, n):
        whole = c.call(name, getattr(v, name), **kw)
        for j in range(k):
            one = c.call(name + ' on slice', getattr(spec.slice(core.cell_index(ax, 2, (j,))).build(), name), **kw)
            one = [np.asarray(x) for x in (one if isinstance(one, tuple) else (one,))]
            for g, w in zip(cells(whole, (j,), name), one):
                c.close('%s of kept cell %d, whose numbers are those of others in another order' % (name, j), g, w, 1e-7, 1e-9)
            c.count('cells of the same numbers')
        c.sig('orders', kind, name, shp, which)


WORKLOADS = [('orders', orders, 48, 600), ('intervals', intervals, 70, 1400), ('slices', slices, 70, 1400), ('perturb', perturb, 35, 700)]
_L = core.larger(WORKLOADS, ['slices', 'perturb'], 8, 120)
WORKLOADS += _L
