"""Metric calls leave data and settings untouched and are repeatable."""
import contextlib
import io
import os
import numpy as np
from mon import core, mk
from PyAnEn import utils_verify as uv, utils_special_boot as usb, utils_ss as uss, utils_dist as ud, utils_crps as uc
from PyAnEn import diebold_mariano_test
from PyAnEn.utils_approximation import Integration

RULE = ('distinct (verifier type or function, call, kind of call: successful, failing, repeated, seeded) after which input arrays and '
        'settings were compared with their state before, or results with those of the first call')
REQUIRE = ['arrays compared after calls', 'settings compared after calls', 'settings compared after failures', 'repeated calls',
           'returned arrays overwritten', 'seeded repeats', 'seeded repeats with workers', 'failing calls', 'failed integrations',
           'functions called', 'threshold arrays', 'progress bars on', 'failed integrations in processes', 'lists of axes', 'forecast dictionaries', 'successive threshold arrays', 'random streams compared']


class Boom(Exception):
    pass


def digest(a):
    a = np.asarray(a)
    return (a.shape, str(a.dtype), a.tobytes(), a.strides)


class Watch:
    """Input arrays and settings before and after."""
    def __init__(self, c, named):
        self.c, self.named = c, named
        self.d = [digest(a) for _, a in named]
        self.env = dict(os.environ)

    def check(self, what, failed=False):
        c = self.c
        for (n, a), d in zip(self.named, self.d):
            e = digest(a)
            c.true(e[:3] == d[:3], '%s modified the input %s' % (what, n))
            c.count('arrays compared after calls')
        now = dict(os.environ)
        if now != self.env:
            ch = {k: (self.env.get(k), now.get(k)) for k in set(now) | set(self.env) if now.get(k) != self.env.get(k)}
            c.fail('%s changed settings: %s' % (what, ch))
        c.count('settings compared after failures' if failed else 'settings compared after calls')


class Containers:
    """The lists and dictionaries of the caller before and after."""
    def __init__(self, c, box, axes):
        self.c, self.box, self.axes = c, box, axes
        self.was = list(box.items()) if hasattr(box, 'items') else None
        self.order = list(axes) if isinstance(axes, list) else None

    def check(self, what):
        if self.order is not None:
            self.c.true(self.axes == self.order, '%s changed the list of axes from %s to %s' % (what, self.order, self.axes))
            self.c.count('lists of axes')
        if self.was is not None:
            now = list(self.box.items())
            self.c.true([k for k, _ in now] == [k for k, _ in self.was], '%s changed the names in the forecast from %s to %s' % (what, [k for k, _ in self.was], [k for k, _ in now]))
            for (k, a), (_, b) in zip(now, self.was):
                self.c.true(a is b, '%s put another array into %s of the forecast' % (what, k))
            self.c.count('forecast dictionaries')


def small(c, kind, **k):
    s = mk.make(c.rng, kind, core.shape(c.rng, nd=int(c.rng.integers(1, 4)), lo=2, hi=4), **k)
    if kind == 'hurdle':
        s.kw['n_approx_bins'] = 6
    if kind in ('determ', 'ens'):
        s.o = np.asarray(s.o, float)
    return s


def opts(c, spec):
    kw = {}
    if spec.kind in ('gauss', 'tgauss', 'gamma', 'tgamma'):
        kw['n_sample_members'] = int(c.rng.integers(2, 5))
        kw['move_sampled_ens_axis'] = int(c.rng.choice([-1, 0]))
        if c.rng.random() < .5:
            kw['clip_member_to_zero'] = 0.5
    if c.rng.random() < .3:
        kw['boot_samples'] = 5
        c.env(boot_repeats=5)
    return kw


def bars(c):
    """Progress bar settings of any spelling; the output itself is thrown away."""
    if c.rng.random() < .3:
        c.env(tqdm_disable=str(c.rng.choice(['False', '0', 'no'])), tqdm_leave=str(c.rng.choice(['True', 'False'])))
        c.count('progress bars on')
    elif c.rng.random() < .5:
        c.env(tqdm_disable=str(c.rng.choice(['1', 'yes', 'true'])))


def failing(c, spec):
    """Calls that have to fail on this verifier."""
    t = float(np.asarray(spec.o).ravel()[0])
    out = [('iou_determ', {'over': t, 'below': t}), ('cdf', {}), ('brier', {'over': t, 'below': t}), ('brier_decomp', {}),
           ('roc', {'over': t, 'below': t}), ('iou_prob', {'over': t, 'below': t})]
    if spec.kind in mk.PROB:
        out += [('binned_spread_skill', {'nbins': 10 ** 6}), ('cdf', {'below': np.zeros(tuple(n + 1 for n in spec.o.shape))}),
                ('reliability', {'over': t, 'below': t})]
    else:
        out += [('crps', {}), ('spread', {}), ('variance', {}), ('rank_hist', {})]
    if spec.kind == 'tgamma':
        out.append(('crps', {}))
    if spec.kind == 'hurdle':
        out += [('spread', {}), ('prob_to_ens', {})]
    return out


def untouched(c):
    """Constructor, setters, successful and failing calls on every verifier type."""
    kind = mk.KINDS[c.index % len(mk.KINDS)]
    spec = small(c, kind)
    bars(c)
    kw = opts(c, spec)
    kw['avg_axis'] = core.axes(c.rng, spec.o.ndim)
    if c.rng.random() < .3:
        kw['working_directory'] = os.path.join(c.tmp(), 'w')
    thr = np.asarray(spec.o, float) + .25
    w = Watch(c, spec.arrays() + [('threshold array', thr)])
    box = spec.container()
    spec.container = lambda: box
    kept = Containers(c, box, kw['avg_axis'])
    with contextlib.redirect_stderr(io.StringIO()):
        v = c.call('construct', spec.build, **kw)
        w.check('the constructor')
        kept.check('the constructor')
        nsamp = len(core.rows(spec.o, kw['avg_axis'])[1][0])
        full = len(core.norm_axes(kw['avg_axis'], spec.o.ndim)) == spec.o.ndim
        pool = mk.pool(c, spec, 3, None if full else nsamp)
        if kind != 'determ':
            pool += [('cdf', {'below': thr}), ('cdf', {'over': thr}), ('brier', {'over': thr}), ('brier', {'below': thr})]
            c.count('threshold arrays')
        fails = failing(c, spec)
        for i in range(14):
            if c.rng.random() < .3:
                name, k = fails[int(c.rng.integers(len(fails)))]
                c.raises(name, getattr(v, name), **k)
                c.count('failing calls')
                w.check('failing %s on %s' % (name, kind), True)
                c.sig(kind, 'fail', name)
            else:
                name, k = pool[int(c.rng.integers(len(pool)))]
                c.call(name, getattr(v, name), **k)
                w.check('%s on %s' % (name, kind))
                c.sig(kind, 'ok', name)
            if c.rng.random() < .2:
                c.call('set_boot_samples', v.set_boot_samples, v.boot_samples)
                c.call('set_avg_axis', v.set_avg_axis, kw['avg_axis'])
                c.call('repr', repr, v)
                w.check('setters')
        kept.check('a history of calls')
    c.say(kind=kind, shape=spec.o.shape)


def integration(c):
    """Numerical integration, also when a probability fails at some threshold."""
    kind = mk.PROB[c.index % len(mk.PROB)]
    spec = small(c, kind, distinct=True)
    bars(c)
    fail = int(c.rng.integers(1, 7)) if c.index % 2 else None
    base = mk.CLS[kind]
    n = [0]

    def see(self, t):
        n[0] += 1
        if fail is not None and n[0] >= fail:
            raise Boom('injected')
    cls = mk.watched(base, see)
    kw = dict(spec.kw)
    if kind == 'ens':
        kw['ensemble_axis'] = spec.ax
    if kind in ('tgauss', 'tgamma'):
        kw['truncated'] = True
    if c.rng.random() < .5:
        c.env(integrate_with_less_memory='True')
        os.chdir(c.tmp())
    v = cls(spec.f, spec.o, **kw)
    w = Watch(c, spec.arrays())
    what = ['mean', 'variance', 'crps'][int(c.rng.integers(3))]
    if kind == 'hurdle' and c.rng.random() < .5:
        fn = {'mean': v.f_determ, 'variance': v.variance, 'crps': v.crps}[what]
    else:
        fn = getattr(Integration(v, nbins=8), what)
    if fail is not None and c.rng.random() < .5:
        # the error passes through the saving of intermediate results as well
        v.enable_saving(os.path.join(c.tmp(), 'w'))
    with contextlib.redirect_stderr(io.StringIO()):
        if fail is None:
            c.call('integrate ' + what, fn)
        else:
            c.raises('integrate ' + what, fn)
            c.count('failed integrations')
    w.check('%s integration of %s' % ('failed' if fail else 'successful', what), fail is not None)
    c.sig('integration', kind, what, fail)
    c.say(kind=kind, what=what, fails_at=fail)


def functions(c):
    """Module-level functions leave their arguments alone."""
    rng = c.rng
    shp = core.shape(rng, nd=int(rng.integers(1, 4)), lo=2, hi=5)
    ax = core.axes(rng, len(shp))
    axt = None if ax is None else (ax if isinstance(ax, (tuple, list)) else [ax])
    n = len(core.rows(np.zeros(shp), ax)[1][0])
    f, o = core.layout(rng, rng.normal(0, 1, shp)), core.layout(rng, rng.normal(0, 1, shp))
    p, b = core.layout(rng, rng.random(shp)), rng.random(shp) < .5
    va, se = core.layout(rng, rng.gamma(2, 1, shp)), core.layout(rng, rng.gamma(1, 1, shp))
    ens = rng.normal(0, 1, (4,) + shp)
    mu, sg = core.layout(rng, rng.uniform(1, 5, shp)), core.layout(rng, rng.uniform(.5, 2, shp))
    sh = -rng.uniform(0, .5, shp)
    c.env(boot_repeats=4)
    calls = [
        ('corr', usb.corr, (f, o, axt)), ('corr boot', usb.corr, (f, o, axt, 5)),
        ('brier_decomp', usb.brier_decomp, (p, b.astype(float), axt)), ('brier_decomp boot', usb.brier_decomp, (p, b.astype(float), axt, 5)),
        ('spread_skill', uss.binned_spread_skill, (va, se, min(2, n), axt)),
        ('spread_skill boot', uss.binned_spread_skill, (va, se, min(2, n), axt, 4)),
        ('rank_histogram', uv.rank_histogram, (ens, o, 0)), ('ens_to_prob', uv.ens_to_prob, (ens, 0, None, o)),
        ('ens_to_prob over', uv.ens_to_prob, (ens, 0, o)),
        ('boot_arr', uv.boot_arr, (f, axt, 4)), ('boot_vec', uv.boot_vec, (f.ravel(), 4)),
        ('roc', uv.calculate_roc, (p, b)), ('binarize', uv.binarize_obs, (o, 0.1)),
        ('reliability', uv.reliability_diagram, (p, b, 5, None)),
        ('iou_determ', uv.iou_determ, (f, o, None, 0.1)), ('iou_prob', uv.iou_prob, (p, b, None, 0.1)),
        ('cdf_gaussian', ud.cdf_gaussian, (mu, sg, o)), ('cdf_gaussian trunc', ud.cdf_gaussian, (mu, sg, o, True)),
        ('cdf_gamma', ud.cdf_gamma, (mu, sg, sh, o)), ('cdf_gamma trunc', ud.cdf_gamma, (mu, sg, sh, o, True)),
        ('cdf_gamma_hurdle', ud.cdf_gamma_hurdle, (p, mu, sg, o)),
        ('sample gaussian', ud.sample_dist_gaussian, (mu, sg, 3)), ('sample gamma', ud.sample_dist_gamma, (mu, sg, sh, 3)),
        ('crps_gamma', uc.crps_gamma, (mu, sg, sh, o, False)), ('crps_trunc', uc.crps_truncated_gaussian, (o, mu, sg, 0)),
        ('reliability_index', core.PyAnEn.VerifyDeterm.reliability_index, (va.ravel(),)),
    ]
    if f.size >= 4:
        calls.append(('dm', diebold_mariano_test, (f, o, va)))
    for i in rng.permutation(len(calls))[:16]:
        name, fn, a = calls[int(i)]
        w = Watch(c, [('argument %d' % j, x) for j, x in enumerate(a) if isinstance(x, np.ndarray)])
        stream(c, 'the function ' + name, lambda: c.call(name, fn, *a))
        w.check('the function ' + name)
        c.count('functions called')
        c.sig('function', name)
    c.say(shape=shp, axes=ax)


def scramble(r):
    """Overwrite everything a call returned."""
    n = 0
    parts = r if isinstance(r, (tuple, list)) else [r]
    for x in parts:
        if isinstance(x, (tuple, list)):
            n += scramble(x)
        elif isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = True if x.dtype == bool else 77
            n += 1
        elif hasattr(x, 'iloc'):
            x.iloc[:] = 77
            n += 1
    return n


def order(c):
    """A random history of calls gives what single calls on new verifiers give."""
    kind = mk.KINDS[c.index % len(mk.KINDS)]
    spec = small(c, kind, distinct=True)
    ax = core.axes(c.rng, spec.o.ndim)
    nsamp = len(core.rows(spec.o, ax)[1][0])
    full = len(core.norm_axes(ax, spec.o.ndim)) == spec.o.ndim
    pool = mk.pool(c, spec, None, None if full else nsamp)      # without ties and zeros everything here is deterministic
    clean = spec.copy()
    want = [getattr(clean.copy().build(avg_axis=ax), n)(**k) for n, k in pool]
    fails = failing(c, spec)
    v = spec.build(avg_axis=ax)
    w = Watch(c, spec.arrays())
    for i in range(30):
        r = c.rng.random()
        if r < .15:
            n, k = fails[int(c.rng.integers(len(fails)))]
            c.raises(n, getattr(v, n), **k)
            continue
        if r < .2 and kind in ('gauss', 'tgauss', 'gamma', 'tgamma'):
            v.set_ensemble_members(3)
            c.call('prob_to_ens', v.prob_to_ens)
            c.call('spread', v.spread)
            v.set_ensemble_members(None)
            continue
        j = int(c.rng.integers(len(pool)))
        n, k = pool[j]
        got = c.call(n, getattr(v, n), **k)
        c.close_tree('%s on %s at call %d of a history' % (n, kind, i), got, want[j], 1e-12, 1e-13)
        c.count('repeated calls')
        c.sig('order', kind, n)
        if c.rng.random() < .6:
            c.count('returned arrays overwritten', scramble(got))
            w.check('overwriting the result of %s (a view of the input)' % n)
    c.say(kind=kind, shape=spec.o.shape, axes=ax)


def stream(c, what, run):
    """Whatever a call draws, numpy's generator goes on from where it was and is not started over."""
    after = []
    for seed in c.rng.choice(2 ** 31, 2, replace=False):
        np.random.seed(int(seed))
        run()
        after.append(np.random.random(4).tolist())
    c.true(after[0] != after[1], '%s sets the state of the random numbers' % what)
    c.count('random streams compared')


def streams(c):
    """No metric call restarts the random numbers of the user."""
    kind = mk.KINDS[c.index % len(mk.KINDS)]
    spec = small(c, kind)
    kw = opts(c, spec)
    if c.index // 7 % 2:
        kw['boot_samples'] = 5
        c.env(boot_repeats=4)
    pool = mk.pool(c, spec, 3)
    for i in c.rng.permutation(len(pool))[:9]:
        n, k = pool[int(i)]
        stream(c, '%s on %s' % (n, kind), lambda: c.call(n, getattr(spec.build(**kw), n), **k))
        c.sig('stream', kind, n, 'boot_samples' in kw)


def seeded(c):
    """The same numpy seed gives the same randomized results."""
    kind = mk.KINDS[c.index % len(mk.KINDS)]
    wide = c.index % 8 == 3
    spec = small(c, kind)
    if wide:
        spec = mk.make(c.rng, kind, [(91, 60), (5200,), (13, 20, 22)][int(c.words.integers(3))], distinct=False)
        if kind == 'hurdle':
            spec.kw['n_approx_bins'] = 4
        c.count('seeded repeats of large arrays')
    par = c.index % 6 == 5 and kind not in ('determ', 'hurdle') and not wide
    kw = opts(c, spec)
    if c.rng.random() < .5 or kind == 'determ':
        kw['boot_samples'] = 6
        c.env(boot_repeats=6)
    if par:
        c.env(tqdm_workers=int(c.rng.integers(2, 4)), tqdm_chunksize=int(c.rng.integers(1, 3)))
    pool = mk.pool(c, spec, 3)
    names = [pool[int(i)] for i in c.rng.permutation(len(pool))[:3 if par or wide else 10]]
    names += [(n, k) for n, k in pool if n in ('rank_hist', 'prob_to_ens', 'spread')]
    seed = int(c.rng.integers(2 ** 31))

    def go():
        np.random.seed(seed)
        v = spec.build(**kw)
        return [c.call(n, getattr(v, n), **k) for n, k in names]
    a, b = go(), go()
    for (n, k), x, y in zip(names, a, b):
        c.same('%s on %s with the same seed%s' % (n, kind, ' and workers' if par else ''), x, y)
        c.count('seeded repeats with workers' if par else 'seeded repeats')
        c.sig('seeded', kind, n, par)
    c.say(kind=kind, workers=par)


def settings():
    return {k: x for k, x in os.environ.items() if k.startswith('pyanen_')}


def again(fn, *a):
    """A cluster that fails to start is given a second chance (which does not help when another one is in the way)."""
    try:
        return fn(*a)
    except Exception:
        return fn(*a)


def failing_workers(c):
    """A failed integration in several processes; the next one works."""
    shp = core.shape(c.rng, 2, 2, 3, 12)
    spec = mk.make(c.rng, 'ens', shp, distinct=True)
    v = spec.build()
    before = (settings(), [digest(a)[:3] for _, a in spec.arrays()])
    names = ['crps', 'mean', 'variance']
    stat = names[c.index % 3]
    run = lambda n, cores: getattr(Integration(v, nbins=7, integration_range=(-5., 5.), workers=cores), n)()
    want = c.call(stat, run, stat, 1)
    c.env(ens_to_prob_method='unknown')
    mid = settings()
    c.raises('%s with an unknown method in two processes' % names[(c.index + 1) % 3], run, names[(c.index + 1) % 3], 2)
    c.true(settings() == mid, 'a failed integration in two processes changed settings')
    c.env(ens_to_prob_method='moments')
    c.close('%s after a failed integration in two processes' % stat, c.call(stat, again, run, stat, 2), want, 1e-10, 1e-12)
    c.true((settings(), [digest(a)[:3] for _, a in spec.arrays()]) == before, 'integration in two processes changed settings or data')
    c.count('failed integrations in processes')
    c.sig('failing_workers', stat)


def successive(c):
    """Threshold arrays given one after the other, one of them the same array with other values."""
    kind = mk.PROB[c.index % len(mk.PROB)]
    spec = small(c, kind, distinct=True)
    ax = core.axes(c.rng, spec.o.ndim)
    v = spec.build(avg_axis=ax)
    a = np.array(spec.o, float) + c.rng.normal(0, .5, spec.o.shape)
    for i in range(8):
        r = c.rng.random()
        if r < .4:
            a += c.rng.normal(0, 1, a.shape)
        elif r < .6:
            a = a + 1e-9
        elif r < .8:
            a = a.copy()
        k = ['over', 'below'][int(c.rng.integers(2))]
        n = ['cdf', 'brier'][int(c.rng.integers(2))]
        got = c.call(n, getattr(v, n), **{k: a})
        want = getattr(spec.copy().build(avg_axis=ax), n)(**{k: a.copy()})
        c.close_tree('%s on %s at call %d with a threshold array' % (n, kind, i), got, want, 1e-12, 1e-13)
        c.count('successive threshold arrays')
    c.sig('successive', kind, spec.o.shape, ax)


WORKLOADS = [('streams', streams, 28, 420), ('successive', successive, 36, 500), ('failing_workers', failing_workers, 2, 6), ('untouched', untouched, 105, 1500), ('integration', integration, 60, 800), ('functions', functions, 40, 600),
             ('order', order, 70, 1000), ('seeded', seeded, 70, 700)]
