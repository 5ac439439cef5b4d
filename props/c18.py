"""Saving intermediate data never changes a result."""
import os
import numpy as np
from mon import core, mk, units

RULE = ('distinct (verifier type, metric, arguments class, axes, resampling, fresh or reused directory) results compared with '
        'those of a verifier that saves nothing')
REQUIRE = ['calls compared', 'names that differ little', 'reused directory', 'changed averaging axis', 'changed resampling', 'similar thresholds',
           'small threshold arrays', 'new verifier on old directory', 'random data reused', 'random data renewed', 'resampled calls',
           'integration', 'files loaded', 'calls without a name', 'calls with a name', 'literal names', 'thresholds that print alike', 'larger threshold arrays', 'axes in turn',
           'diagrams of kept cells', 'resampling in turn', 'started from scratch', 'axes counted from both ends', 'megabytes loaded']


DEFAULT_PARTS = ('cdf', 'f_determ', 'variance', 'sq_error')      # also saved as parts of other metrics


def near(c, t):
    """A threshold that differs from t only a little, or only in type or event."""
    r = c.rng.random()
    if r < .15:
        return float(np.nextafter(t, t + (1 if c.rng.random() < .5 else -1)))
    if r < .3:
        return t + 10.0 ** -int(c.rng.integers(3, 12))
    if r < .5:
        return -t
    if r < .6:
        return int(round(t))
    return t


def calls(c, spec, nsamp):
    """A pool of calls that a wrong file name would confuse."""
    t = float(np.round(mk.threshold(c.rng, spec), 3)) or 0.125
    ts = [t, near(c, t), near(c, t), t * 10, t / 10]
    small = spec.o.size <= 5
    out = [(n, {}) for n in ('error', 'sq_error', 'ab_error', 'rmse', 'f_determ', 'corr')]
    for x in ts:
        for k in ('over', 'below'):
            out.append(('iou_determ', {k: x}))
            if spec.kind in mk.PROB:
                out += [('cdf', {k: x}), ('brier', {k: x}), ('sharpness', {k: x}), ('brier_decomp', {k: x}), ('roc', {k: x}),
                        ('iou_prob', {'over': (x, .4), 'below': (None, None)} if k == 'over' else
                         {'below': (x, .4), 'over': (None, None)}),
                        ('iou_prob', {'over': (x, .6), 'below': (None, None)} if k == 'over' else
                         {'below': (x, .6), 'over': (None, None)})]
                for nb in (3, 7):
                    out.append(('reliability', {'nbins': nb, k: x}))
    c.count('similar thresholds')
    if spec.kind in mk.PROB:
        if spec.kind != 'tgamma':
            out += [('crps', {})] * 3
        out += [('variance', {})] * 2
        for nb in range(1, min(4, nsamp) + 1):
            out.append(('binned_spread_skill', {'nbins': nb}))
        if small:
            a = np.asarray(spec.o, float) + .001
            for b in (a, a + 1e-9, a + 1e-6, a[::-1].copy()):
                for k in ('over', 'below'):
                    out += [('cdf', {k: b}), ('brier', {k: b})]
            c.count('small threshold arrays')
        elif spec.o.size <= 40:
            # thresholds of many digits that differ in one element
            a = np.asarray(spec.o, float) + c.rng.random(spec.o.shape) / 7
            b, d = a.copy(), a.copy()
            b.flat[-1] = b.flat[-1] + 1.5
            i = int(c.rng.integers(a.size))
            d.flat[i] = d.flat[i] + 2.5
            for x in (a, b, d, a + 1.):
                for k in ('over', 'below'):
                    out += [('cdf', {k: x}), ('brier', {k: x}), ('sharpness', {k: x})]
            c.count('larger threshold arrays')
    if spec.kind == 'ens':
        out.append(('spread', {}))
    return out


def skip_for_axis(name, ax, o):
    """A diagram of each kept cell is not always possible."""
    return name == 'reliability' and ax is not None and len(core.norm_axes(ax, o.ndim)) != o.ndim


def compare(c, name, got, want, boot, plain):
    if boot is None or name in ('cdf', 'sharpness', 'variance', 'f_determ', 'roc', 'iou_determ', 'iou_prob'):
        c.close_tree(name, got, want, 1e-10, 1e-12)
        return
    c.count('resampled calls')
    g, w, p = core.flatten(got), core.flatten(want), core.flatten(plain)
    c.true(len(g) == len(w), '%s: %d parts instead of %d' % (name, len(g), len(w)))
    for a, b in zip(g, w):
        c.true(a.shape == b.shape, '%s: shape %s instead of %s' % (name, a.shape, b.shape))
    if name in ('error', 'sq_error', 'ab_error', 'crps', 'spread', 'brier'):
        # centred on the value without resampling
        width = np.maximum(np.asarray(want)[2] - np.asarray(want)[0], np.asarray(got)[2] - np.asarray(got)[0])
        c.true(np.all(np.abs(np.asarray(got)[1] - np.asarray(plain)) <= 1.5 * width + 1e-6 * (1 + np.abs(plain))),
               '%s: resampled mean %s is far from %s' % (name, core.brief(np.asarray(got)[1]), core.brief(plain)))


def sequence(c):
    kind = mk.KINDS[c.index % 7]
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 2, 4, 40) if c.index % 3 else (int(c.rng.integers(3, 6)),)
    nd = len(shp)
    spec = mk.make(c.rng, kind, shp, distinct=True)
    wd = os.path.join(c.tmp(), 'save')
    scratch = bool(c.rng.random() < .3)
    ax, boot = None, None
    v = c.call('construct', spec.build, avg_axis=ax, working_directory=wd, start_from_scratch=scratch)
    c.env(boot_repeats=25)
    nsamp = int(np.prod(shp))
    pool = calls(c, spec, min(shp))
    c.say(kind=kind, shape=str(shp), start_from_scratch=scratch)
    n = 26
    for step in range(n):
        r = c.rng.random()
        if r < .18:
            ax = core.axes(c.rng, nd)
            v.set_avg_axis(ax)
            c.count('changed averaging axis')
        elif r < .28:
            boot = None if boot is not None else int(c.rng.integers(5, 60))
            if boot is None:
                v.disable_boot()
            else:
                v.set_boot_samples(boot)
            c.count('changed resampling')
        elif r < .36:
            again = bool(c.rng.random() < .8)
            v = c.call('construct', spec.build, avg_axis=ax, boot_samples=boot, working_directory=wd, start_from_scratch=not again)
            if again:
                c.count('new verifier on old directory')
        elif r < .40:
            v.disable_saving()
            v.enable_saving(wd, start_from_scratch=False)
        name, kw = pool[int(c.rng.integers(len(pool)))]
        if skip_for_axis(name, ax, spec.o):
            # cells that fill different numbers of bins are refused
            try:
                spec.build(avg_axis=ax, boot_samples=boot).reliability(**kw)
            except ValueError:
                c.count('refused diagrams')
                continue
            c.count('diagrams of kept cells')
        ns = int(np.prod([shp[i] for i in core.norm_axes(ax, nd)]))
        if name == 'binned_spread_skill' and kw['nbins'] > ns:
            continue
        if name == 'corr' and ns < 3:
            continue
        if name == 'roc':
            e = mk.observed(spec.o, **kw)
            if e.min() == e.max():
                continue
        kw = dict(kw)
        if name in ('corr', 'brier_decomp') and c.rng.random() < .5:
            kw['save_name'] = name                    # saved on request only
        got = c.call(name, getattr(v, name), **kw)
        ref = spec.build(avg_axis=ax, boot_samples=boot)
        want = getattr(ref, name)(**kw)
        plain = want if boot is None else getattr(spec.build(avg_axis=ax), name)(**kw)
        c.sig(kind, name, sorted(k for k in kw), ax, boot is not None, scratch)
        compare(c, '%s%s with avg_axis=%s boot=%s' % (name, core.brief(kw), ax, boot) if boot is None else name, got, want, boot, plain)
        c.count('calls compared')
    c.count('reused directory', not scratch)


def restart(c):
    """Results are gone when the directory is started from scratch, or its files are removed: later calls see the settings of then."""
    kind = ['ens', 'gauss', 'gamma', 'hurdle'][c.index % 4]
    shp = core.shape(c.rng, None, 2, 4, 40)
    spec = mk.make(c.rng, kind, shp, distinct=True)
    spec.kw = {}
    wd = os.path.join(c.tmp(), 'save')
    t = float(np.median(spec.o))
    v = c.call('construct', spec.build, working_directory=wd)
    kw = {}
    pool = [('f_determ', {}), ('error', {}), ('crps', {}), ('brier', {'over': t}), ('sq_error', {}), ('cdf', {'below': t}), ('variance', {}), ('sharpness', {'over': t})]
    for step in range(4):
        for i in c.rng.permutation(len(pool))[:5]:
            n, k = pool[int(i)]
            if kw.get('truncated') and kind == 'gamma' and n == 'crps':
                continue
            got = c.call(n, getattr(v, n), **k)
            want = getattr(spec.build(**kw), n)(**k)
            c.close_tree('%s after starting from scratch with %s' % (n, kw), got, want, 1e-10, 1e-12)
            c.count('calls compared')
        if kind == 'ens':
            kw['ensemble_collapse_func'] = [np.mean, np.median, np.max, np.min][int(c.rng.integers(4))]
            v.set_collapse_func(kw['ensemble_collapse_func'])
        elif kind == 'hurdle':
            kw['n_approx_bins'] = int(c.rng.integers(5, 60))
            v.set_bins(kw['n_approx_bins'])
        else:
            if kind == 'gamma' and spec.f['shift'].max() > 0:
                return
            kw['truncated'] = not kw.get('truncated', False)
            v.set_truncation(kw['truncated'])
        how = int(c.rng.integers(3))
        if how == 0:
            v.enable_saving(wd)
        elif how == 1:
            v.disable_saving()
            v.enable_saving(wd, start_from_scratch=True)
        else:
            v.start_from_scratch = False
            v.enable_saving(os.path.join(wd, 'inner%d' % step), False)
        c.count('started from scratch')
        c.sig('restart', kind, how)


def twice(c):
    """The second verifier reads every result that the first one saved; values stay."""
    kind = mk.PROB[c.index % 6]
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 2, 4, 40)
    spec = mk.make(c.rng, kind, shp, distinct=True)
    wd = os.path.join(c.tmp(), 'save')
    pool = [(n, k) for n, k in calls(c, spec, min(shp)) if n not in ('roc', 'corr')]
    pick = [pool[int(i)] for i in c.rng.permutation(len(pool))[:12]]
    v = c.call('construct', spec.build, working_directory=wd, start_from_scratch=False)
    first = [c.call(n, getattr(v, n), **k) for n, k in pick]
    with c.record() as rec:
        v2 = c.call('construct', spec.build, working_directory=wd, start_from_scratch=False)
        order = c.rng.permutation(len(pick))
        second = {int(i): c.call(pick[i][0], getattr(v2, pick[i][0]), **pick[i][1]) for i in order}
    c.count('files loaded', len([e for e in rec.events if e[0] == 'read']))
    plain = spec.build()
    for i, (n, k) in enumerate(pick):
        c.close_tree(n + ' again', second[i], first[i], 1e-12, 1e-13)
        c.close_tree(n + ' without saving', first[i], getattr(plain, n)(**k), 1e-10, 1e-12)
        c.sig('twice', kind, n, shp)
        c.count('calls compared')
    c.count('reused directory')


def random_data(c):
    """Randomized intermediate data stay the same until the directory is started from scratch."""
    kind = ['gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle', 'ens'][c.index % 6]
    shp = (6, 7)
    spec = mk.make(c.rng, kind, shp)
    kw = {}
    if kind == 'ens':
        spec = mk.Spec('ens', np.zeros((5,) + shp), np.zeros(shp), 0)
        names = ['rank_hist']
    elif kind == 'hurdle':
        spec.o = np.zeros(shp)
        spec.f['pop'] = np.full(shp, .4)
        names = ['pit', 'rank_hist']
    else:
        kw = {'n_sample_members': 6}
        names = ['prob_to_ens', 'spread', 'rank_hist']
    wd = os.path.join(c.tmp(), 'w d')
    v = c.call('construct', spec.build, working_directory=wd, **kw)
    a = {n: np.array(c.call(n, getattr(v, n))) for n in names}
    for n in names[::-1]:
        c.close(n + ' repeated', c.call(n, getattr(v, n)), a[n], 0, 0)
    w = c.call('construct', spec.build, working_directory=wd, start_from_scratch=False, **kw)
    for n in names:
        c.close(n + ' of a second verifier', c.call(n, getattr(w, n)), a[n], 0, 0)
    c.count('random data reused')
    w = c.call('construct', spec.build, working_directory=wd, start_from_scratch=True, **kw)
    for n in names:
        c.true(not np.array_equal(c.call(n, getattr(w, n)), a[n]), n + ' is still the old one after starting from scratch')
    # the directory now holds the new data
    b = {n: np.array(getattr(w, n)()) for n in names}
    x = c.call('construct', spec.build, working_directory=wd, start_from_scratch=False, **kw)
    for n in names:
        c.close(n + ' after starting from scratch', c.call(n, getattr(x, n)), b[n], 0, 0)
    c.count('random data renewed')
    c.sig('random', kind)


def integration(c):
    """Integrated metrics reuse probabilities and scores that were saved for thresholds, and the other way around."""
    shp = core.shape(c.rng, 2, 1, 4)
    spec = mk.make(c.rng, 'hurdle', shp)
    nb = int(c.rng.integers(4, 12))
    rg = (-2.0, 18.0)
    if c.rng.random() < .5:
        # a small unit: thresholds lie close together
        spec = units.scaled(spec, 2. ** -int(c.rng.integers(10, 40)))
        rg = (-float(spec.f['mu'].max()), 4 * float(spec.f['mu'].max()))
        c.count('integration in small units')
    spec.kw = {'integration_range': rg, 'n_approx_bins': nb}
    xs = [float(x) for x in np.linspace(*rg, nb)]
    wd = os.path.join(c.tmp(), 'save')
    v = c.call('construct', spec.build, working_directory=wd, start_from_scratch=False)
    plain = spec.build()
    ops = [('crps', {}), ('variance', {}), ('f_determ', {}), ('error', {})] + [('brier', {'below': x}) for x in xs[:4]] + \
        [('cdf', {'below': x}) for x in xs[:4]] + [('cdf', {'over': x}) for x in xs[:3]] + [('brier', {'over': x}) for x in xs[:3]]
    for i in c.rng.permutation(len(ops)):
        n, k = ops[i]
        if c.rng.random() < .2:
            ax = core.axes(c.rng, 2)
            v.set_avg_axis(ax)
            plain.set_avg_axis(ax)
        c.close(n, c.call(n, getattr(v, n), **k), getattr(plain, n)(**k), 1e-10, 1e-12)
        c.count('calls compared')
    c.count('integration')
    c.sig('integration', shp, nb)


def names(c):
    """Results saved under names of the user, or not at all."""
    kind = mk.KINDS[c.index % 7]
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 2, 4, 40)
    spec = mk.make(c.rng, kind, shp, distinct=True)
    wd = os.path.join(c.tmp(), 'save')
    plain = spec.build()
    pool = [x for x in calls(c, spec, min(shp)) if x[0] not in ('roc', 'corr')]
    v = c.call('construct', spec.build, working_directory=wd)
    used = {}
    alike = [['run', 'Run', 'RUN', 'ruN', 'rUn'], ['run.1', 'run.10', 'run.2', 'run', 'run.'], ['r\u00e9', 'r\u00e8', 're', 'R\u00e9', 'r'],
             ['run' * 30 + 'a', 'run' * 30 + 'b', 'run' * 30, 'run' * 29, 'run' * 30 + 'A']][int(c.words.integers(4))]
    for step in range(20):
        key = int(c.rng.integers(len(pool)))
        n, k = pool[key]
        want = getattr(plain, n)(**k)
        style = int(c.rng.integers(4))
        if style == 0:
            name = None
        elif style == 1:
            name = 'my own ' + n
        elif style == 2:
            name = used.setdefault(('x', 'sq_error' if n == 'rmse' else n), alike[len(used) % len(alike)] if len(used) < len(alike) else 'x%d' % len(used))
            c.count('names that differ little')
        else:
            name = used.setdefault(('L', key), 'LITERAL_file%d' % len(used))
        if style == 0:
            before = set(os.listdir(wd))
            got = c.call(n, getattr(v, n), save_name=None, **k)
            new = set(os.listdir(wd)) - before
            # probabilities and forecasts that the metric uses are saved under their own names
            if n not in DEFAULT_PARTS:
                c.true(not [x for x in new if x.startswith(n)], '%s without a name was saved as %s' % (n, sorted(new)))
            c.count('calls without a name')
        else:
            got = c.call(n, getattr(v, n), save_name=name, **k)
            c.count('calls with a name')
            if style == 3:
                lit = name[len('LITERAL_'):] + '.pkl'
                c.true(os.path.exists(os.path.join(wd, lit)), '%s: no file %s for the name %s' % (n, lit, name))
                c.count('literal names')
        c.close_tree('%s saved as %r' % (n, name), got, want, 1e-10, 1e-12)
        c.sig('names', kind, n, style)
        if c.rng.random() < .2:
            v = c.call('construct', spec.build, working_directory=wd, start_from_scratch=False)
    # results of different metrics under names that differ little
    wd = os.path.join(c.tmp(), 'alike')
    v = c.call('construct', spec.build, working_directory=wd)
    for turn in range(2):
        for n, name in zip(['error', 'sq_error', 'ab_error', 'f_determ'], alike):
            c.close_tree('%s saved as %r' % (n, name), c.call(n, getattr(v, n), save_name=name), getattr(plain, n)(), 1e-10, 1e-12)
            c.count('names that differ little')


def precision(c):
    """Thresholds that print alike but are different numbers."""
    m, shp = int(c.rng.integers(2, 8)), core.shape(c.rng, int(c.rng.integers(1, 4)), 2, 4, 40)
    f = (c.rng.integers(0, 6, shp + (m,)) / 10).astype(np.float32)
    o = (c.rng.integers(0, 6, shp) / 10).astype(np.float32)
    o.flat[0], o.flat[1] = 0, .5
    spec = mk.Spec('ens', f, o, -1)
    wd = os.path.join(c.tmp(), 'save')
    v, plain = c.call('construct', spec.build, working_directory=wd), spec.build()
    ts = []
    for x in c.rng.permutation([1, 2, 3, 4]):
        ts += [x / 10, np.float32(x / 10), np.float64(np.float32(x / 10)), np.float64(x / 10)]
    for x in c.rng.choice(6, 2, replace=False) / 10:
        # members of double precision, one step away from the threshold
        ts += [float(np.nextafter(x, 1)), float(np.nextafter(x, -1))]
    if c.index % 2:
        spec.f, spec.o = np.round(f.astype(float), 1), np.round(o.astype(float), 1)
        v, plain = c.call('construct', spec.build, working_directory=wd), spec.build()
    for step in range(16):
        t = ts[int(c.rng.integers(len(ts)))]
        ev = mk.event(c.rng, t)
        n = ['cdf', 'brier', 'sharpness', 'roc', 'brier_decomp', 'reliability'][int(c.rng.integers(6))]
        c.close_tree('%s %s (%s)' % (n, ev, type(t).__name__), c.call(n, getattr(v, n), **ev), getattr(plain, n)(**ev), 1e-10, 1e-12)
        c.count('thresholds that print alike')
        c.sig('precision', n, type(t).__name__)


def axes_pairs(c):
    """Every metric over one set of axes after another, in one directory."""
    kind = mk.PROB[c.index % 6]
    shp = [(14, 2, 3), (2, 13, 2), (3, 12), (4, 4, 5)][int(c.rng.integers(4))]
    spec = mk.make(c.rng, kind, shp, distinct=True)
    if kind == 'ens':
        spec.f = np.round(spec.f, 2)
    nd = len(shp)
    wd = os.path.join(c.tmp(), 'save')
    t = float(np.round(np.median(spec.o), 3))
    pool = [('reliability', {'nbins': 2, 'below': t}), ('reliability', {'nbins': 2, 'over': t}), ('binned_spread_skill', {'nbins': 2}),
            ('iou_determ', {'over': t}), ('iou_prob', {'over': (t, .5), 'below': (None, None)}),
            ('corr', {'save_name': 'corr'}), ('brier_decomp', {'below': t, 'save_name': 'bd'}), ('brier', {'over': t}), ('sq_error', {})]
    if kind != 'tgamma':
        pool.append(('crps', {}))
    axs = [None, 0, (0,), nd - 1, -1, (0, nd - 1), (-1, 0)][int(c.rng.integers(7)):][:3] + [(0,), None]
    # axes counted from the front and from the back are not the same
    j = int(c.words.integers(1, nd))
    turn = [j, -j, (j,), (-j,)] if c.words.random() < .5 else [-j, j]
    axs = turn + axs if c.words.random() < .5 else axs + turn
    c.count('axes counted from both ends')
    # the diagram of all axes first: every other one differs from it
    for name, kw in pool:
        v = c.call('construct', spec.build, working_directory=wd, start_from_scratch=False)
        for ax in axs:
            ns = int(np.prod([shp[i] for i in core.norm_axes(ax, nd)]))
            if name == 'corr' and ns < 3:
                continue
            v.set_avg_axis(ax)
            try:
                want = getattr(spec.build(avg_axis=ax), name)(**kw)
            except ValueError:
                c.count('refused diagrams', name == 'reliability')
                continue
            what = '%s%s with avg_axis=%s after other axes' % (name, core.brief(kw), ax)
            c.close_tree(what, c.call(name, getattr(v, name), **kw), want, 1e-10, 1e-12)
            c.count('axes in turn')
            c.count('diagrams of kept cells', name == 'reliability' and ns < spec.o.size)
            c.sig('axes', kind, name, ax)
        if name in ('corr', 'brier_decomp'):
            # with and without resampling, of different sizes
            c.env(boot_repeats=40)
            base = np.asarray(getattr(spec.build(), name)(**kw))
            for k in (None, 400, 4, None):
                v = c.call('construct', spec.build, boot_samples=k, working_directory=wd, start_from_scratch=False)
                got = np.asarray(c.call(name, getattr(v, name), **kw))
                c.true(got.shape == (base.shape if k is None else base.shape + (3,)), '%s with boot_samples=%s: shape %s' % (name, k, got.shape))
                if k is None:
                    c.close('%s without resampling' % name, got, base, 1e-10, 1e-12)
                elif k == 400:
                    wide = got[..., 2] - got[..., 0]
                elif name == 'corr':
                    c.true(not np.any(got[..., 2] - got[..., 0] < 1.2 * wide), '%s: intervals of 4 samples are like those of 400' % name)
                c.count('resampling in turn')


def bulk(c):
    """Results of several megabytes come back from the files as they went in."""
    kind = ['determ', 'ens', 'gauss', 'gamma'][c.index % 4]
    n = int(c.rng.integers(140000, 420000))
    shp = [(n,), (n // 50, 50), (7, n // 7)][int(c.rng.integers(3))]
    spec = mk.make(c.rng, kind, shp, distinct=False)
    wd = os.path.join(c.tmp(), 'save')
    t = float(np.median(spec.o))
    pool = [('error', {}), ('ab_error', {}), ('f_determ', {})]
    if kind != 'determ':
        pool += [('cdf', {'below': t}), ('sharpness', {'over': t}), ('brier', {'over': t}), ('variance', {}), ('crps', {})]
    plain = spec.build(avg_axis=())
    want = {n: np.array(getattr(plain, n)(**k)) for n, k in pool}
    first = c.call('construct', spec.build, working_directory=wd, avg_axis=())
    for what in ('saved', 'loaded'):
        v = first if what == 'saved' else c.call('construct', spec.build, working_directory=wd, avg_axis=(), start_from_scratch=False)
        for i in c.rng.permutation(len(pool)):
            name, kw = pool[int(i)]
            got = np.asarray(c.call(name, getattr(v, name), **kw))
            c.close('%s %s of %d cells' % (what, name, spec.o.size), got, want[name], 1e-12, 1e-13)
            c.count('megabytes loaded', int(got.nbytes >> 20) if what == 'loaded' else 0)
    c.sig('bulk', kind, len(shp))


WORKLOADS = [('bulk', bulk, 8, 60), ('restart', restart, 20, 200), ('axes_pairs', axes_pairs, 24, 300), ('precision', precision, 20, 300), ('names', names, 28, 400), ('sequence', sequence, 42, 900), ('twice', twice, 18, 300), ('random_data', random_data, 12, 60),
             ('integration', integration, 10, 150)]
_L = core.larger(WORKLOADS, ['sequence', 'twice'], 8, 120)
WORKLOADS += _L
