"""Skipped missing values do not influence results."""
import numpy as np
from mon import core, mk

RULE = ('distinct (verifier type, metric, averaging axes, where values are missing, skipping on or off) results compared with those on the '
        'data without the missing cells')
REQUIRE = ['averages compared', 'infinite averages', 'correlations compared', 'resampled results', 'resampled correlations', 'ranks compared', 'ranks missing',
           'ranks refused', 'averages missing when off', 'averages kept when off', 'missing forecasts', 'missing observations',
           'partly missing members', 'probability ranks', 'brier compared', 'mostly missing cells', 'spread compared',
           'resampled widths', 'decompositions compared', 'ROC compared', 'reliability compared', 'members missing one by one', 'decompositions missing when off', 'many members',
           'zero observations without distribution', 'thresholds beyond the data']


def blank(spec, idx, what):
    """Make the cells idx (boolean mask) missing."""
    if what == 'o':
        spec.o[idx] = np.nan
    elif spec.kind == 'ens':
        m = np.moveaxis(spec.f, spec.ax, 0)
        m[:, idx] = np.nan
    elif isinstance(spec.f, dict):
        for v in spec.f.values():
            v[idx] = np.nan
    else:
        spec.f[idx] = np.nan


def data(c, kind, nd=None):
    shp = core.shape(c.rng, nd=nd or int(c.rng.integers(1, 4)), lo=2, hi=6)
    s = mk.make(c.rng, kind, shp, distinct=True).copy()
    if kind == 'hurdle':
        s.kw['n_approx_bins'] = 15
    return s


def holes(c, spec, ax, keep=2):
    """Random missing cells that leave at least `keep` valid cells in every kept cell."""
    miss = np.zeros(spec.o.shape, bool)
    share = c.rng.choice([.1, .3, .6, .9])
    nd = spec.o.ndim
    kshape, _ = core.rows(spec.o, ax)
    for idx in np.ndindex(*kshape):
        sl = core.cell_index(ax, nd, idx)
        sub = miss[sl]
        n = sub.size
        bad = c.rng.permutation(n)[:int(min(n - keep, np.ceil(share * n)))] if n > keep else []
        flat = np.zeros(n, bool)
        flat[bad] = True
        if n and flat.mean() > .6:
            c.count('mostly missing cells')
        miss[sl] = flat.reshape(sub.shape)
    return miss


def split(c, miss):
    """Missing observations, missing forecasts."""
    u = c.rng.random(miss.shape)
    mode = c.rng.integers(3)
    a = miss & (u < .6) if mode == 0 else (miss if mode == 1 else np.zeros_like(miss))
    b = miss & (u > .4) if mode == 0 else (miss & ~a)
    return a, b


def valid_cell(spec, ax, idx, miss):
    """The data of one kept cell without the missing cells, as a one-dimensional data set."""
    sl = core.cell_index(ax, spec.o.ndim, idx)
    ok = ~miss[sl]
    sub = spec.slice(sl)
    o = sub.o[ok]
    if spec.kind == 'ens':
        f, a = np.moveaxis(sub.f, sub.ax, 0)[:, ok], 0
    elif isinstance(sub.f, dict):
        f, a = {k: v[ok] for k, v in sub.f.items()}, None
    else:
        f, a = sub.f[ok], None
    return mk.Spec(spec.kind, f, o, a, **spec.kw)


def skipping(c):
    kind = mk.KINDS[c.index % len(mk.KINDS)]
    spec = data(c, kind)
    ax = core.axes(c.rng, spec.o.ndim)
    miss = holes(c, spec, ax)
    mo, mf = split(c, miss)
    part = np.zeros_like(miss)
    clean = spec.copy()
    blank(spec, mo, 'o')
    blank(spec, mf, 'f')
    c.count('missing observations', mo.sum())
    c.count('missing forecasts', mf.sum())
    metrics = ['error', 'sq_error', 'ab_error', 'rmse', 'corr']
    if kind != 'determ' and kind != 'tgamma':
        metrics.append('crps')
    if kind == 'ens' and c.rng.random() < .4:
        # some members missing: no deterministic forecast and no rank
        m = np.moveaxis(spec.f, spec.ax, 0)
        part = miss & ~mf & ~mo if c.rng.random() < .5 else mo & (c.rng.random(miss.shape) < .5)
        sel = np.nonzero(part)
        if len(sel[0]):
            m[(c.rng.integers(m.shape[0], size=len(sel[0])),) + sel] = np.nan
            c.count('partly missing members', len(sel[0]))
    c.env(skip_nan=str(c.rng.choice(['True', '1', 'yes'])))
    if kind == 'ens' and c.rng.random() < .3:
        c.env(split_crps_ensemble_along_0='True')
    v = c.call('construct', spec.build, avg_axis=ax)
    kshape, _ = core.rows(spec.o, ax)
    for n in metrics:
        got = np.asarray(c.call(n, getattr(v, n)))
        c.true(got.shape == kshape, '%s: shape %s instead of %s' % (n, got.shape, kshape))
        for idx in np.ndindex(*kshape):
            sub = valid_cell(clean, ax, idx, mo | mf | part)
            if n == 'corr' and sub.o.size < 3:
                continue
            want = np.asarray(getattr(sub.build(), n)())
            c.close('%s of %s with %d missing cells, averaged over %s, cell %s' % (n, kind, int((mo | mf | part).sum()), ax, idx),
                    got[idx], want, 1e-8 if n != 'corr' else 1e-7, 1e-10)
            c.count('correlations compared' if n == 'corr' else 'averages compared')
        c.sig('skip', kind, n, ax is None, bool(mo.any()), bool(mf.any()))
    if kind != 'determ':
        # Brier score: a missing observation (or distribution) is neither an event nor a non-event
        if kind == 'ens':
            spec2 = clean.copy()
            blank(spec2, mo, 'o')
            m2 = mo
        else:
            spec2, m2 = spec, mo | mf
        t = float(np.median(clean.o))
        if c.words.random() < .25:        # an event that has no observation, or all of them
            t = float(c.words.choice([clean.o.min() - 1, clean.o.max() + 1, -1., 0.]))
            c.count('thresholds beyond the data')
        ev = mk.event(c.rng, t)
        got = np.asarray(c.call('brier', spec2.build(avg_axis=ax).brier, **ev))
        for idx in np.ndindex(*kshape):
            sub = valid_cell(clean, ax, idx, m2)
            c.close('brier of %s with missing cells, cell %s' % (kind, idx), got[idx], np.asarray(sub.build().brier(**ev)), 1e-8, 1e-10)
            c.count('brier compared')
        dec = np.asarray(c.call('brier_decomp', spec2.build(avg_axis=ax).brier_decomp, **ev), float)
        c.true(dec.shape == (3,) + kshape, 'brier_decomp: shape %s' % (dec.shape,))
        for idx in np.ndindex(*kshape):
            sub = valid_cell(clean, ax, idx, m2)
            c.close('decomposition of %s with missing cells, cell %s' % (kind, idx), dec[(slice(None),) + idx],
                    np.asarray([float(x) for x in sub.build().brier_decomp(**ev)]), 1e-8, 1e-10)
            c.count('decompositions compared')
        sub = valid_cell(clean, None, (), m2)
        e = mk.observed(sub.o, **ev)
        if 0 < e.sum() < e.size:
            got, want = c.call('roc', spec2.build().roc, **ev), sub.build().roc(**ev)
            c.close_tree('ROC of %s with missing cells' % kind, got, want, 1e-9, 1e-12)
            c.count('ROC compared')
        nb = int(c.rng.integers(2, 9))
        got = c.call('reliability', spec2.build().reliability, nbins=nb, **ev)
        want = sub.build().reliability(nbins=nb, **ev)
        c.close_tree('reliability diagram of %s with missing cells' % kind, got, want, 1e-9, 1e-12)
        c.count('reliability compared')
        k = int(c.rng.integers(3, 20))
        c.env(boot_repeats=30)
        got = c.call('resampled reliability', spec2.build(boot_samples=k).reliability, nbins=nb, **ev)
        c.close_tree('counts of the resampled reliability diagram of %s with missing cells' % kind, got[2:], want[2:], 0, 0)
        c.close('resampled mean probabilities', np.asarray(got[0])[:, 1], want[0], 0, 1. / nb + 1e-9)
        c.true(np.isfinite(np.asarray(got[0])).all() and np.isfinite(np.asarray(got[1])).all(), 'resampled reliability is missing')
        got = np.asarray(c.call('resampled decomposition', spec2.build(avg_axis=ax, boot_samples=k).brier_decomp, **ev), float)
        c.true(np.isfinite(got).all() and got.min() >= -1e-12, 'resampled decomposition with missing cells: %s' % core.brief(got))
        for idx in np.ndindex(*kshape):
            e = mk.observed(valid_cell(clean, ax, idx, m2).o, **ev)
            if e.min() == e.max():
                c.close('resampled uncertainty of cell %s without (or only) events' % (idx,), got[(2, slice(None)) + idx], np.zeros(3), 0, 1e-12)
    if kind == 'ens':
        m3 = mf
        s3 = clean.copy()
        blank(s3, m3, 'f')
        got = np.asarray(c.call('spread', s3.build(avg_axis=ax).spread))
        for idx in np.ndindex(*kshape):
            sub = valid_cell(clean, ax, idx, m3)
            c.close('spread of cell %s' % (idx,), got[idx], np.asarray(sub.build().spread()), 1e-9, 1e-11)
            c.count('spread compared')
        # members missing one by one: the range of those that are present
        s4 = clean.copy()
        m = np.moveaxis(s4.f, s4.ax, 0)
        gone = c.rng.random(m.shape) < c.rng.choice([.1, .5])
        gone[int(c.rng.integers(m.shape[0]))] = False
        m[gone] = np.nan
        want = np.where(gone, -np.inf, m).max(0) - np.where(gone, np.inf, m).min(0)
        c.close('spread of the members present', c.call('spread', s4.build(avg_axis=ax).spread), core.reduce_rows(want, ax), 1e-9, 1e-11)
        c.count('members missing one by one', gone.sum())
    c.say(kind=kind, shape=spec.o.shape, axes=ax, missing=int(miss.sum()))


def resampled(c):
    """Bootstrapped averages with missing values."""
    kind = mk.KINDS[c.index % len(mk.KINDS)]
    spec = data(c, kind)
    ax = core.axes(c.rng, spec.o.ndim)
    miss = holes(c, spec, ax)
    mo, mf = split(c, miss)
    clean = spec.copy()
    blank(spec, mo, 'o')
    blank(spec, mf, 'f')
    n = int(c.rng.choice([1, 2, 5, 30]))
    rep = 120
    c.env(skip_nan='True', boot_repeats=rep, boot_confidence=.9)
    v = c.call('construct', spec.build, avg_axis=ax, boot_samples=n)
    kshape, _ = core.rows(spec.o, ax)
    metrics = ['error', 'sq_error', 'ab_error'] + (['crps'] if kind not in ('determ', 'tgamma') else [])
    for name in metrics:
        got = np.asarray(c.call(name, getattr(v, name)))
        c.true(got.shape == (3,) + kshape, '%s: shape %s' % (name, got.shape))
        for idx in np.ndindex(*kshape):
            sub = valid_cell(clean, ax, idx, miss)
            if name == 'crps':          # an axis of length one is averaged
                cells = sub.extra().build(avg_axis=0).crps()
            else:
                d = sub.determ() - sub.o if kind != 'hurdle' else np.asarray(sub.build().f_determ()) - sub.o
                cells = d if name == 'error' else (d ** 2 if name == 'sq_error' else np.abs(d))
            cells = np.asarray(cells, float)
            lo, mid, hi = got[(slice(None),) + idx]
            e = 1e-9 * (1 + np.abs(cells).max())
            c.true(np.isfinite([lo, mid, hi]).all() and cells.min() - e <= lo <= hi <= cells.max() + e,
                   'resampled %s of %s, cell %s: (%r, %r, %r) but the valid cells range from %r to %r' % (
                       name, kind, idx, lo, mid, hi, cells.min(), cells.max()))
            se = cells.std() / np.sqrt(n * rep)
            c.true(abs(mid - cells.mean()) <= 8 * se + e + (np.ptp(cells) * .03 if n < 5 else 0),
                   'resampled %s of %s, cell %s: mean %r instead of about %r (standard error %r, %d of %d cells missing)' % (
                       name, kind, idx, mid, cells.mean(), se, int(miss.sum()), miss.size))
            c.count('resampled results')
        c.sig('boot', kind, name, n)
    # correlation: exactly linear valid cells have correlation one in every resample
    if kind == 'determ':
        shp = core.shape(c.rng, nd=2, lo=5, hi=8)
        f = c.rng.normal(0, 1, shp)
        o = 2 * f + 1
        s = mk.Spec('determ', f, o)
        m = holes(c, s, 1, keep=4)
        a, b = split(c, m)
        f[a], o[b] = np.nan, np.nan
        got = np.asarray(c.call('corr', s.build(avg_axis=1, boot_samples=25).corr))
        c.close('resampled correlation of exactly linear data with missing cells', got, np.ones((3, shp[0])), 1e-6, 1e-6)
        c.count('resampled correlations')
    c.say(kind=kind, shape=spec.o.shape, samples=n, missing=int(miss.sum()))


def ranks(c):
    kind = mk.PROB[c.index % len(mk.PROB)]
    spec = data(c, kind)
    miss = c.rng.random(spec.o.shape) < c.rng.choice([.1, .4, .8])
    miss.ravel()[c.rng.integers(miss.size)] = True
    mo, mf = split(c, miss)
    clean = spec.copy()
    base = np.asarray(c.call('ranks of complete data', clean.build().rank_hist))
    blank(spec, mo, 'o')
    blank(spec, mf, 'f')
    if kind == 'ens' and mf.any() and c.rng.random() < .5:
        # one missing member is enough
        spec = clean.copy()
        blank(spec, mo, 'o')
        m = np.moveaxis(spec.f, spec.ax, 0)
        sel = np.nonzero(mf)
        m[(c.rng.integers(m.shape[0], size=len(sel[0])),) + sel] = np.nan
        c.count('partly missing members', len(sel[0]))
    if kind == 'ens':
        if c.rng.random() < .15:
            c.env(tqdm_workers=2)
        c.env(skip_nan='False')
        v = spec.build()
        if (mo | mf).any():
            c.raises('rank_hist with missing values and skipping off', v.rank_hist)
            c.count('ranks refused')
    c.env(skip_nan='True')
    v = spec.build()
    got = np.asarray(c.call('rank_hist', v.rank_hist), float)
    want = base.astype(float)
    want[mo | mf] = np.nan
    c.close('ranks of %s with missing cells' % kind, got, want, 1e-9, 1e-12)
    c.count('ranks missing', np.isnan(want).sum())
    c.count('ranks compared' if kind == 'ens' else 'probability ranks', np.isfinite(want).sum())
    if kind != 'ens':
        # zero observations, whose ranks are random, with and without a distribution
        s0 = spec.copy()
        zero = (c.rng.random(miss.shape) < .5) & ~mo
        s0.o[zero] = 0
        got = np.asarray(c.call('rank_hist of zero observations', s0.build().rank_hist), float)
        c.true(np.array_equal(np.isnan(got), mo | mf), 'ranks of %s are missing at %s instead of %s' % (
            kind, core.brief(np.isnan(got)), core.brief(mo | mf)))
        keep = ~zero & ~(mo | mf)
        c.close('ranks of %s next to zero observations' % kind, got[keep], want[keep], 1e-9, 1e-12)
        g = got[zero & ~mf]
        c.true(np.all((g >= 0) & (g <= 1)), 'ranks of zero observations outside [0, 1]: %s' % core.brief(g))
        c.count('zero observations without distribution', (zero & mf).sum())
    if kind in ('gauss', 'tgauss', 'gamma', 'tgamma'):
        # sampled members: missing observations only (there is nothing to sample from a missing distribution)
        s2 = clean.copy()
        blank(s2, miss, 'o')
        k = int(c.rng.integers(2, 6))
        c.env(skip_nan='False')
        c.raises('sampled rank_hist with missing values and skipping off', s2.build(n_sample_members=k).rank_hist)
        c.env(skip_nan='True')
        r = np.asarray(c.call('sampled rank_hist', s2.build(n_sample_members=k).rank_hist), float)
        c.true(r.shape == s2.o.shape and np.array_equal(np.isnan(r), miss), 'sampled ranks: missing at %s instead of %s' % (
            core.brief(np.isnan(r)), core.brief(miss)))
        g = r[~miss]
        c.true(np.all((g >= 1) & (g <= k + 1) & (g == np.round(g))), 'sampled ranks outside 1..%d' % (k + 1))
        c.count('ranks refused')
    c.sig('ranks', kind, bool(mo.any()), bool(mf.any()))
    c.say(kind=kind, shape=spec.o.shape, missing=int(miss.sum()))


def off(c):
    """Skipping off: a missing value is not ignored, and averages without one are unchanged."""
    kind = mk.KINDS[c.index % len(mk.KINDS)]
    spec = data(c, kind, nd=int(c.rng.integers(1, 4)))
    ax = core.axes(c.rng, spec.o.ndim)
    clean = spec.copy()
    miss = np.zeros(spec.o.shape, bool)
    for i in c.rng.integers(miss.size, size=int(c.rng.integers(1, 3))):
        miss.ravel()[i] = True
    if kind == 'hurdle':
        mo, mf = np.zeros_like(miss), miss
    else:
        mo, mf = split(c, miss)
    blank(spec, mo, 'o')
    blank(spec, mf, 'f')
    c.env(skip_nan='False')
    v, w = spec.build(avg_axis=ax), clean.build(avg_axis=ax)
    metrics = ['error', 'sq_error', 'ab_error', 'rmse', 'corr'] + (['crps'] if kind not in ('determ', 'tgamma') else [])
    kshape, rs = core.rows(mo | mf, ax)
    hit = np.array([r.any() for r in rs]).reshape(kshape)
    big = len(rs[0]) >= 3
    for n in metrics:
        if n == 'corr' and not big:
            continue
        got, ref = np.asarray(c.call(n, getattr(v, n))), np.asarray(getattr(w, n)())
        c.close('%s of %s with skipping off' % (n, kind), got, np.where(hit, np.nan, ref), 1e-8 if n != 'corr' else 1e-7, 1e-10)
        c.count('averages missing when off', hit.sum())
        c.count('averages kept when off', (~hit).sum())
        c.sig('off', kind, n)
    if kind != 'determ':
        s2 = clean.copy()
        blank(s2, mo | mf, 'o')
        ev = mk.event(c.rng, float(np.median(clean.o)))
        u = s2.build(avg_axis=ax)
        c.close('brier of %s with skipping off' % kind, c.call('brier', u.brier, **ev), np.where(hit, np.nan, w.brier(**ev)), 1e-8, 1e-10)
        got, ref = np.asarray(c.call('brier_decomp', u.brier_decomp, **ev), float), np.asarray(w.brier_decomp(**ev), float)
        c.close('uncertainty with skipping off', got[2], np.where(hit, np.nan, ref[2]), 1e-8, 1e-10)
        c.close('decomposition of complete cells with skipping off', np.where(hit, 0, got), np.where(hit, 0, ref), 1e-8, 1e-10)
        c.count('decompositions missing when off', hit.sum())
    c.env(boot_repeats=40)
    v.set_boot_samples(max(12, 3 * len(rs[0])))
    got = np.asarray(c.call('error', v.error))
    c.true(np.array_equal(np.isnan(got[1]), hit), 'resampled bias with skipping off is missing at %s instead of %s' % (
        core.brief(np.isnan(got[1])), core.brief(hit)))
    c.say(kind=kind, shape=spec.o.shape, axes=ax)


def infinite(c):
    """An infinite forecast is not a missing one."""
    shp = core.shape(c.rng, None, 1, 5, 80)
    ax = core.axes(c.rng, len(shp))
    f, o = c.rng.normal(3, 2, shp), c.rng.normal(3, 2, shp)
    sgn = float(c.rng.choice([-1, 1]))
    for i in c.rng.integers(f.size, size=int(c.rng.integers(1, 4))):
        f.flat[i] = sgn * np.inf
    skip = bool(c.index % 4)
    if skip:
        o[c.rng.random(shp) < .2] = np.nan
    c.env(skip_nan=skip)
    v = c.call('construct', mk.CLS['determ'], f, o, avg_axis=ax)
    e = f - o

    def mean(x):
        x = x[~np.isnan(x)]
        return x.mean() if x.size else np.nan
    for n, x in (('error', e), ('ab_error', np.abs(e)), ('sq_error', e ** 2)):
        want = core.reduce_rows(x, ax, mean)
        c.close('%s with infinite forecasts' % n, c.call(n, getattr(v, n)), want, 1e-9, 1e-11)
    c.close('rmse with infinite forecasts', c.call('rmse', v.rmse), np.sqrt(want), 1e-9, 1e-11)
    c.count('infinite averages', np.isinf(want).sum())
    c.sig('infinite', shp, ax, skip)


def gamma_scores(c):
    """The gamma scores called on their own: the mean of the cells that have one."""
    from PyAnEn.utils_crps import crps_gamma
    shp = core.shape(c.rng, int(c.rng.integers(1, 4)), 2, 6, 100)
    spec = mk.make(c.rng, 'gamma', shp, distinct=True)
    f, o = spec.f, np.array(spec.o, float)
    cells = np.asarray(spec.extra().build(avg_axis=0).crps())
    miss = c.rng.random(shp) < c.rng.choice([.1, .4, .8])
    miss.flat[int(c.rng.integers(miss.size))] = False
    miss.flat[int(c.rng.integers(miss.size))] |= miss.sum() < miss.size - 1
    o[miss] = np.nan
    c.env(skip_nan='True')
    a = [f['unshifted_mu'], f['sigma'], f['shift'], o]
    c.close('mean score without %d missing cells' % miss.sum(), c.call('crps_gamma', crps_gamma, *a), cells[~miss].mean(), 1e-9, 1e-11)
    got = c.call('crps_gamma', crps_gamma, *a, reduce_sum=False)
    c.close('scores of the cells that are not missing', got[~miss], cells[~miss], 1e-9, 1e-11)
    c.true(np.isnan(got[miss]).all(), 'missing cells have a score')
    c.count('averages compared')
    c.sig('gamma scores', shp)


def widths(c):
    """Resamples are drawn from the cells that are there, as many as asked for: intervals are no wider with missing cells."""
    share = float(c.rng.choice([.6, .8, .93]))
    n = int(c.rng.integers(40, 200))
    size = int(c.rng.integers(1500, 4000))
    c.env(skip_nan='True', boot_repeats=500, boot_confidence=.9)
    miss = c.rng.random(size) < share
    what = ['corr', 'error', 'brier_decomp', 'reliability'][c.index % 4]
    if what in ('corr', 'error'):
        o = c.rng.normal(0, 1, size)
        spec = mk.Spec('determ', o * c.rng.uniform(.3, 1) + c.rng.normal(0, 1, size), o)
        kw = {}
    else:
        o = c.rng.normal(0, 1, size)
        spec = mk.Spec('gauss', {'mu': o + c.rng.normal(0, 1, size), 'sigma': c.rng.uniform(.5, 1.5, size)}, o)
        kw = {'over': .2}
        if what == 'reliability':
            kw['nbins'] = 3
    less = spec.copy()
    less.o = spec.o[~miss]
    less.f = spec.f[~miss] if spec.kind == 'determ' else {k: x[~miss] for k, x in spec.f.items()}
    one = c.rng.random(size) < .5
    if spec.kind == 'determ':
        spec.f[miss & one] = np.nan
        spec.o[miss & ~one] = np.nan
    else:
        spec.o[miss] = np.nan
    got, want = [], []
    for s, out in ((spec, got), (less, want)):
        r = c.call(what, getattr(c.call('construct', s.build, boot_samples=n), what), **kw)
        for a in ((r,) if what in ('corr', 'error') else r[:2]):
            a = np.asarray(a, float)
            a = a if what != 'reliability' else a.T
            out += np.atleast_1d(a[2] - a[0]).tolist()
    c.true(len(got) == len(want), '%s with missing cells has %d intervals instead of %d' % (what, len(got), len(want)))
    for a, b in zip(got, want):
        c.true(a <= 1.7 * b + 1e-9 and b <= 1.7 * a + 1e-9, '%s: an interval of %d resampled values is %r wide with %d of %d cells missing, and %r without the missing cells' % (
            what, n, a, miss.sum(), size, b))
        c.count('resampled widths')
    c.sig('widths', what, share)
    c.say(metric=what, samples=n, missing=int(miss.sum()))


WORKLOADS = [('widths', widths, 12, 160), ('gamma_scores', gamma_scores, 16, 200), ('skipping', skipping, 140, 2500), ('infinite', infinite, 24, 300), ('resampled', resampled, 70, 800), ('ranks', ranks, 90, 1200), ('off', off, 70, 1200)]
_L = core.larger(WORKLOADS, ['skipping', 'ranks', 'off'], 8, 120)
WORKLOADS += _L
WORKLOADS += core.with_many(WORKLOADS, ['skipping', 'ranks'], 14, 250)
