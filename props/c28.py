"""Reconfiguring a verifier equals building a new one."""
import functools
import os
import numpy as np
from mon import core, mk

RULE = 'distinct (verifier type, setting changed, metric) results of a reconfigured verifier compared with those of a new one'
REQUIRE = ['collapse functions set again', 'saving enabled again', 'clip at zero', 'metrics compared', 'chained setters', 'setter set_avg_axis', 'setter set_boot_samples', 'setter disable_boot', 'setter enable_saving',
           'setter disable_saving', 'setter set_ensemble_axis', 'setter set_collapse_func', 'setter set_move_sampled_ens_axis',
           'setter set_ensemble_members', 'setter set_member_clip', 'setter set_truncation', 'setter set_bins', 'setter set_integration_range',
           'guessed axes', 'ambiguous guesses', 'resampled metrics', 'calls between setters', 'chains of several setters', 'randomized metrics', 'integration ranges from or to zero']


def trimmed(f, axis):
    return np.sort(f, axis=axis).take(range(0, max(1, f.shape[axis] - 1)), axis=axis).mean(axis=axis)


FUNCS = [np.mean, np.median, np.max, np.min, trimmed, lambda f, axis: f.max(axis=axis), lambda f, axis: f.min(axis=axis),
         functools.partial(np.quantile, q=.25), functools.partial(np.quantile, q=.75)]


def make(c, kind):
    nd = int(c.rng.integers(1, 4))
    if kind == 'ens':
        n = int(c.rng.integers(2, 5))
        shp = (n,) * nd                       # every axis may be the member axis
        f = np.asarray(core.values(c.rng, (n,) * (nd + 1), 'normal'))
        return mk.Spec('ens', f, c.rng.normal(5, 2, shp))
    s = mk.make(c.rng, kind, core.shape(c.rng, nd=nd, lo=2, hi=4), distinct=True)
    s.kw = {}
    if kind in ('gauss', 'gamma'):
        s.o = np.abs(s.o)
        if kind == 'gauss':
            s.f = {'mu': np.abs(s.f['mu']) + .1, 'sigma': s.f['sigma']}
        else:
            s.f = core.gammaf(c.rng, s.o.shape, 'neg')
    return s


def change(c, spec, cfg):
    """A random setter call: (name, args, new configuration)."""
    rng, nd = c.rng, spec.o.ndim
    pool = ['set_avg_axis'] * 2 + ['set_boot_samples', 'disable_boot', 'enable_saving', 'disable_saving']
    if spec.kind == 'ens':
        pool += ['set_ensemble_axis'] * 3 + ['set_collapse_func'] * 3
    elif spec.kind != 'determ':
        pool += ['set_move_sampled_ens_axis', 'set_ensemble_members'] * 2 + ['set_member_clip'] * 2
        if spec.kind != 'hurdle':
            pool += ['set_truncation'] * 2
        else:
            pool += ['set_bins', 'set_integration_range'] * 2
    name = pool[int(rng.integers(len(pool)))]
    new = dict(cfg)
    if name == 'set_avg_axis':
        a = core.axes(rng, nd)
        new['avg_axis'] = a
        args = (a,)
    elif name == 'set_boot_samples':
        a = int(rng.integers(2, 7)) if rng.random() < .8 else None
        new['boot_samples'] = a
        args = (a,)
    elif name == 'disable_boot':
        new['boot_samples'] = None
        args = ()
    elif name == 'enable_saving':
        args = (os.path.join(c.tmp(), 'w'),)
    elif name == 'disable_saving':
        args = ()
    elif name == 'set_ensemble_axis':
        a = [0, -1, nd, -(nd + 1)][int(rng.integers(4))]
        new['ensemble_axis'] = a
        args = (a,)
    elif name == 'set_collapse_func':
        a = FUNCS[int(rng.integers(len(FUNCS)))]
        new['ensemble_collapse_func'] = a
        args = (a,)
    elif name == 'set_move_sampled_ens_axis':
        a = int(rng.integers(-(nd + 1), nd + 1))
        new['move_sampled_ens_axis'] = a
        args = (a,)
    elif name == 'set_ensemble_members':
        a = int(rng.integers(1, 6)) if rng.random() < .8 else None
        new['n_sample_members'] = a
        args = (a,)
    elif name == 'set_member_clip':
        a = (0.0 if rng.random() < .35 else float(rng.uniform(-1, 4))) if rng.random() < .8 else None
        if a == 0:
            c.count('clip at zero')
        new['clip_member_to_zero'] = a
        args = (a,)
    elif name == 'set_truncation':
        a = bool(rng.random() < .5)
        new['truncated'] = a
        args = (a,)
    elif name == 'set_bins':
        a = int(rng.integers(4, 25))
        new['n_approx_bins'] = a
        args = (a,)
    else:
        a = (-float(rng.uniform(0, 3)), float(rng.uniform(5, 40)))
        if rng.random() < .4:
            a = [(0.0, a[1]), (0, int(a[1])), (a[0] - 20, 0.0)][int(rng.integers(3))]
            c.count('integration ranges from or to zero')
        new['integration_range'] = a
        args = a
    c.count('setter ' + name)
    return name, args, new


def calls(c, spec, cfg):
    rng = c.rng
    kind = spec.kind
    if kind == 'gamma' and cfg.get('truncated'):
        kind = 'tgamma'
    ax = cfg.get('avg_axis')
    full = len(core.norm_axes(ax, spec.o.ndim)) == spec.o.ndim
    nsamp = len(core.rows(spec.o, ax)[1][0])
    s = mk.Spec(kind, spec.f, spec.o)
    return mk.pool(c, s, cfg.get('n_sample_members'), None if full else nsamp)


def compare(c, v, spec, cfg, hist, n):
    w = mk.CLS[spec.kind](spec.f, spec.o, **cfg)
    pool = calls(c, spec, cfg)
    pick = [pool[int(i)] for i in c.rng.permutation(len(pool))[:n]]
    if cfg.get('n_sample_members') and spec.kind != 'hurdle' and ('prob_to_ens', {}) not in pick:
        pick.append(('prob_to_ens', {}))
    for name, kw in pick:
        drawn = name in ('rank_hist', 'prob_to_ens', 'spread') and cfg.get('n_sample_members') is not None
        if drawn and spec.kind == 'hurdle':
            continue                       # cannot be sampled
        seed = int(c.rng.integers(2 ** 31))
        np.random.seed(seed)
        got = c.call(name, getattr(v, name), **kw)
        np.random.seed(seed)
        want = c.call(name + ' (new)', getattr(w, name), **kw)
        if drawn and v.working_directory:
            # members drawn by an earlier call are reused
            c.true(np.shape(got) == np.shape(want), '%s has shape %s instead of %s after %s' % (name, np.shape(got), np.shape(want), hist[-6:]))
            continue
        c.close_tree('%s of a %s verifier reconfigured by %s' % (name, spec.kind, hist[-6:]), got, want, 1e-11, 1e-12)
        c.count('metrics compared')
        if cfg.get('boot_samples'):
            c.count('resampled metrics')
        if name in ('rank_hist', 'prob_to_ens', 'spread'):
            c.count('randomized metrics')
        c.sig(spec.kind, hist[-1] if hist else '', name)


KINDS = ['ens', 'gauss', 'hurdle', 'gamma', 'determ', 'ens', 'gauss', 'gamma']


def history(c):
    spec = make(c, KINDS[c.index % len(KINDS)])
    c.env(boot_repeats=5)
    cfg = {}
    if c.rng.random() < .5:
        for _ in range(3):
            _, _, cfg = change(c, spec, cfg)
    kw = dict(cfg)
    if spec.kind == 'ens' and 'ensemble_axis' not in cfg:
        cfg = dict(cfg)
    v = c.call('construct', mk.CLS[spec.kind], spec.f, spec.o, **kw)
    hist = []
    for step in range(7):
        k = 1 if c.rng.random() < .6 else int(c.rng.integers(2, 5))
        for _ in range(k):
            name, args, cfg = change(c, spec, cfg)
            r = c.call(name, getattr(v, name), *args)
            c.true(r is v, '%s does not return the verifier' % name)
            c.count('chained setters')
            hist.append(name)
        if k > 1:
            c.count('chains of several setters')
        if spec.kind == 'ens':
            cfg.setdefault('ensemble_axis', None)
        if c.rng.random() < .6:
            compare(c, v, spec, cfg, hist, 3)
            c.count('calls between setters')
    compare(c, v, spec, cfg, hist, 9)
    c.say(kind=spec.kind, shape=spec.o.shape, history=str(hist))


def guess(c):
    """The guessed member axis: the last one if it fits, else the first one."""
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd=nd, lo=2, hi=4)
    m = int(c.rng.integers(2, 5))
    if c.rng.random() < .4:
        shp = (m,) * nd
    last = bool(c.rng.random() < .5)
    fs = shp + (m,) if last else (m,) + shp
    f, o = c.rng.normal(0, 1, fs), c.rng.normal(0, 1, shp)
    fits_last = fs[:-1] == shp
    if fits_last and fs[1:] == shp:
        c.count('ambiguous guesses')
    ax = -1 if fits_last else 0
    v = c.call('construct', mk.CLS['ens'], f, o)
    w = mk.CLS['ens'](f, o, ensemble_axis=ax)
    for n in ('f_determ', 'error', 'crps', 'spread', 'variance'):
        c.close(n + ' with a guessed member axis', c.call(n, getattr(v, n)), getattr(w, n)(), 1e-12, 1e-12)
    c.close('mean of the members', v.f_determ(), f.mean(axis=ax), 1e-12, 1e-12)
    if not fits_last or shp != fs[1:]:
        pass
    c.count('guessed axes')
    # setting another axis and asking for a guess again
    other = 0 if (ax == -1 and fs[1:] == shp) else ax
    c.call('set_ensemble_axis', v.set_ensemble_axis, other)
    c.close('mean of the members', v.f_determ(), f.mean(axis=other), 1e-12, 1e-12)
    c.call('set_ensemble_axis', v.set_ensemble_axis, None)
    c.close('mean of the members after another guess', v.f_determ(), f.mean(axis=ax), 1e-12, 1e-12)
    c.sig('guess', shp, m, last)


def again(c):
    """Saving switched on for a directory in use starts from scratch, unless asked not to."""
    kind = ['gauss', 'gamma', 'tgauss', 'tgamma'][c.index % 4]
    spec = mk.make(c.rng, kind, core.shape(c.rng, nd=int(c.rng.integers(1, 4)), lo=2, hi=5), distinct=True)
    d = os.path.join(c.tmp(), 'w')
    v = c.call('construct', spec.build, n_sample_members=int(c.rng.integers(3, 9)))
    # which of the arguments are given, and how
    v = c.call('enable_saving', v.enable_saving, d)
    a = np.array(c.call('prob_to_ens', v.prob_to_ens))
    c.close('members drawn before', c.call('prob_to_ens', v.prob_to_ens), a, 0, 0)
    for step in range(5):
        if c.rng.random() < .3:
            c.call('disable_saving', v.disable_saving)
        scratch = bool(c.rng.random() < .6)
        args = ((), (True,))[int(c.rng.integers(2))] if scratch else (False,)
        c.true(c.call('enable_saving', v.enable_saving, d, *args) is v, 'enable_saving does not return the verifier')
        if scratch:
            c.true(not os.listdir(d), 'enable_saving%s left %s' % (args, os.listdir(d)[:3]))
        b = np.array(c.call('prob_to_ens', v.prob_to_ens))
        c.true(np.array_equal(a, b) != scratch, 'members are %s after enable_saving%s on the same directory' % ('kept' if scratch else 'renewed', args))
        a = b
        c.count('saving enabled again')
    c.sig('again', kind)


class Quantile:
    """A collapse function whose result depends on its state."""
    def __init__(self, q):
        self.q = q

    def __call__(self, f, axis):
        return np.quantile(f, self.q, axis=axis)

    def __eq__(self, other):
        return isinstance(other, Quantile)

    __hash__ = None


def stateful(c):
    """Collapse functions that compare equal, or are the same, but do something else now."""
    shp = core.shape(c.rng, int(c.rng.integers(1, 4)), 2, 5)
    spec = mk.make(c.rng, 'ens', shp, distinct=True)
    func = Quantile(.1)
    ax = core.axes(c.rng, len(shp))
    v = c.call('construct', spec.build, ensemble_collapse_func=func, avg_axis=ax)
    for step in range(5):
        q = float(c.rng.uniform(.05, .95))
        if c.rng.random() < .5:
            func.q = q
        else:
            func = Quantile(q)
        c.true(c.call('set_collapse_func', v.set_collapse_func, func) is v, 'set_collapse_func does not return the verifier')
        new = spec.build(ensemble_collapse_func=Quantile(q), avg_axis=ax)
        for n in ('error', 'f_determ', 'sq_error'):
            c.close('%s after setting a collapse function again' % n, c.call(n, getattr(v, n)), getattr(new, n)(), 1e-12, 1e-13)
        c.count('collapse functions set again')
    c.sig('stateful', shp, ax)


WORKLOADS = [('stateful', stateful, 20, 300), ('again', again, 16, 200), ('history', history, 160, 3000), ('guess', guess, 60, 1000)]
