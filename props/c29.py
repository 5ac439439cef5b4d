"""Inconsistent input is rejected, never silently used."""
import os
import numpy as np
import PyAnEn
from mon import core, mk
from PyAnEn.Grid import write_matrix

RULE = 'distinct (verifier type, kind of inconsistency, argument) that were accepted when consistent and rejected when not'
REQUIRE = ['consistent input accepted', 'shape mismatches', 'broadcastable mismatches', 'missing parameters', 'wrong types', 'wrong types in setters',
           'unsupported metrics', 'both thresholds', 'no threshold', 'threshold arrays', 'too many bins', 'unknown methods', 'horizons',
           'criteria', 'lengths', 'matrices', 'sampling without members', 'member axes', 'data that are no arrays', 'not writing on rejection',
           'broadcastable threshold arrays', 'rejected in parallel', 'repeated axes', 'axes that do not exist', 'split axes', 'functions of two arrays']
KINDS = mk.KINDS
THR = ['cdf', 'brier', 'sharpness', 'brier_decomp', 'roc', 'reliability', 'iou_determ']


def spec_of(c, kind=None, nd=None):
    kind = kind or KINDS[c.index % len(KINDS)]
    nd = nd or int(c.rng.integers(1, 4))
    s = mk.make(c.rng, kind, core.shape(c.rng, nd=nd, lo=2, hi=4), distinct=True)
    return s


def ok(c, s, **kw):
    v = c.call('construct', s.build, **kw)
    c.count('consistent input accepted')
    return v


def other_shape(rng, shp):
    """A shape that differs, often in a way that broadcasting would hide."""
    while True:
        t, r = list(shp), rng.random()
        bc = False
        if r < .3:
            t[int(rng.integers(len(t)))] = 1
            bc = True
        elif r < .45:
            t = [1] + t
            bc = True
        elif r < .6 and len(t) > 1:
            t = t[1:]
            bc = True
        elif r < .7:
            t = t + [1]
        elif r < .8:
            t = t[::-1]
        elif r < .9:
            i = int(rng.integers(len(t)))
            t[i] += int(rng.integers(1, 3))
        elif len(t) > 1:
            t = [int(np.prod(t))]
        t = tuple(t)
        if t != tuple(shp):
            return t, bc


def resized(rng, a, shp):
    return np.resize(np.asarray(a).copy(), shp)


def shapes(c):
    s = spec_of(c)
    ok(c, s)
    t, bc = other_shape(c.rng, s.o.shape)
    w = mk.Spec(s.kind, s.f, s.o, s.ax, **s.kw)
    where = 'o'
    if s.kind == 'determ':
        if c.rng.random() < .5:
            w.o = resized(c.rng, s.o, t)
        else:
            w.f, where = resized(c.rng, s.f, t), 'f'
    elif s.kind == 'ens':
        m = s.members()
        r = c.rng.random()
        if r < .5:
            w.o = resized(c.rng, s.o, t)
        else:
            first = s.ax in (0, -s.f.ndim)
            w.f, where = resized(c.rng, s.f, ((m.shape[0],) + t) if first else (t + (m.shape[0],))), 'f'
        if c.rng.random() < .3:
            w.ax = None                       # to be guessed
            if w.o.shape in (w.f.shape[1:], w.f.shape[:-1]):
                return
        elif -w.f.ndim <= w.ax < w.f.ndim and w.o.shape == tuple(np.delete(w.f.shape, w.ax)):
            return
    else:
        where = ['o'] + sorted(s.f)
        where = where[int(c.rng.integers(len(where)))]
        if where == 'o':
            w.o = resized(c.rng, s.o, t)
        else:
            w.f = dict(s.f)
            w.f[where] = resized(c.rng, s.f[where], t)
    c.say(kind=s.kind, shape=s.o.shape, instead=t, of=where)
    c.raises('%s with %s of shape %s instead of %s' % (s.kind, where, t, s.o.shape), w.build)
    c.count('shape mismatches')
    c.count('broadcastable mismatches', bc)
    c.sig(s.kind, 'shape', where, len(t) - s.o.ndim, bc)


def member_axis(c):
    """Only the first or the last axis holds members, and the rest has the shape of the observations."""
    nd = int(c.rng.integers(2, 4))
    n = int(c.rng.integers(2, 4))
    f = c.rng.normal(0, 1, (n,) * (nd + 1))
    s = mk.Spec('ens', f, c.rng.normal(0, 1, (n,) * nd), 0)
    v = ok(c, s)
    for bad in (1, -2, nd - 1, -nd, nd + 1, -nd - 2):
        if bad in (0, -1, nd, -(nd + 1)):
            continue
        c.raises('member axis %d of %d dimensions' % (bad, nd + 1), s.build, ensemble_axis=bad)
        c.raises('set_ensemble_axis %d of %d dimensions' % (bad, nd + 1), v.set_ensemble_axis, bad)
        c.count('member axes')
        c.sig('axis', nd, bad)
    # an axis that does not fit the observations although the other one does
    m = n + int(c.rng.integers(1, 4))
    first = bool(c.rng.random() < .5)
    f = c.rng.normal(0, 1, ((m,) + (n,) * nd) if first else ((n,) * nd + (m,)))
    ok(c, mk.Spec('ens', f, s.o, 0 if first else -1))
    c.raises('the wrong one of two member axes', mk.CLS['ens'], f, s.o, ensemble_axis=-1 if first else 0)
    c.raises('set_ensemble_axis to the wrong one', mk.CLS['ens'](f, s.o).set_ensemble_axis, -1 if first else 0)
    c.count('member axes')


def parameters(c):
    kind = mk.DIST[c.index % len(mk.DIST)]
    s = spec_of(c, kind)
    ok(c, s)
    need = {'gauss': ['mu', 'sigma'], 'tgauss': ['mu', 'sigma'], 'hurdle': ['pop', 'mu', 'sigma']}.get(kind, ['mu', 'sigma', 'shift', 'unshifted_mu'])
    for k in need:
        f = {a: b for a, b in s.f.items() if a != k}
        c.raises('%s without %s' % (kind, k), mk.Spec(kind, f, s.o, **s.kw).build)
        if c.rng.random() < .5:
            f[k.upper()] = s.f[k]
            c.raises('%s with misspelt %s' % (kind, k), mk.Spec(kind, f, s.o, **s.kw).build)
        c.count('missing parameters')
        c.sig(kind, 'missing', k)
    c.raises('%s without parameters' % kind, mk.Spec(kind, {}, s.o, **s.kw).build)
    c.raises('%s with an array instead of parameters' % kind, mk.Spec(kind, s.f['mu'], s.o, **s.kw).build)
    c.count('data that are no arrays')


def no_arrays(c):
    s = spec_of(c)
    ok(c, s)
    w = mk.Spec(s.kind, s.f, s.o.tolist(), s.ax, **s.kw)
    c.raises('%s with observations in a list' % s.kind, w.build)
    w = mk.Spec(s.kind, s.f, float(s.o.flat[0]), s.ax, **s.kw)
    c.raises('%s with one number as observations' % s.kind, w.build)
    if s.kind in ('determ', 'ens'):
        w = mk.Spec(s.kind, s.f.tolist(), s.o, s.ax, **s.kw)
        c.raises('%s with forecasts in a list' % s.kind, w.build)
        c.raises('%s without forecasts' % s.kind, mk.Spec(s.kind, None, s.o, s.ax).build)
    c.count('data that are no arrays')
    c.sig(s.kind, 'no array')


COMMON = {'boot_samples': [2.5, '10', [3], (4,)], 'avg_axis': ['0', 1.5, {0: 1}], 'start_from_scratch': ['True', 1, None, 0.],
          'working_directory': [3, ['d'], 2.5]}
SET = {'boot_samples': 'set_boot_samples', 'avg_axis': 'set_avg_axis', 'working_directory': 'enable_saving',
       'n_sample_members': 'set_ensemble_members', 'truncated': 'set_truncation', 'clip_member_to_zero': 'set_member_clip',
       'move_sampled_ens_axis': 'set_move_sampled_ens_axis', 'ensemble_axis': 'set_ensemble_axis', 'ensemble_collapse_func': 'set_collapse_func',
       'n_approx_bins': 'set_bins'}
PROBS = {'n_sample_members': [2.5, '10', [3]], 'truncated': [1, 'True', None, 0.], 'clip_member_to_zero': ['0', [0.], (1.,), 1],
         'move_sampled_ens_axis': [1.5, '0', None, [0]], 'pit_randomize_zero_ranks': [1, 'True', None]}
ENS = {'ensemble_axis': [1.5, '0', [0]], 'ensemble_collapse_func': [3, 'mean', None]}
HURDLE = {'n_approx_bins': [10.5, '10', None, [3]], 'integration_range': [(1.,), (1., 2., 3.), 5., ()], 'truncated': [True]}


def types(c):
    s = spec_of(c)
    table = dict(COMMON)
    if s.kind == 'ens':
        table.update(ENS)
    elif s.kind != 'determ':
        table.update(PROBS)
    if s.kind == 'hurdle':
        table.update({k: v + table.get(k, []) for k, v in HURDLE.items()})
    names = sorted(table)
    d = c.tmp()
    for i in c.rng.permutation(len(names))[:4]:
        k = names[int(i)]
        bad = table[k][int(c.rng.integers(len(table[k])))]
        if s.kind == 'ens' and k == 'ensemble_axis':
            s.ax = None
        ok(c, s)
        c.raises('%s with %s=%r' % (s.kind, k, bad), s.build, **{k: bad})
        c.count('wrong types')
        c.sig(s.kind, 'type', k, type(bad).__name__)
        if k in SET:
            v = s.build()
            c.raises('%s.%s(%r)' % (s.kind, SET[k], bad), getattr(v, SET[k]), bad)
            c.count('wrong types in setters')
        elif k == 'start_from_scratch':
            v = s.build()
            wd = os.path.join(d, 'keep')
            os.makedirs(wd, exist_ok=True)
            with open(os.path.join(wd, 'x'), 'w') as f:
                f.write('1')
            c.raises('%s.enable_saving(start_from_scratch=%r)' % (s.kind, bad), v.enable_saving, wd, bad)
            c.true(os.path.exists(os.path.join(wd, 'x')), 'a directory was emptied although the request was rejected')
            c.count('wrong types in setters')
            c.count('not writing on rejection')


def unsupported(c):
    kind = ['determ', 'tgamma', 'hurdle'][c.index % 3]
    s = spec_of(c, kind)
    v = ok(c, s)
    if kind == 'determ':
        t = 1.0
        calls = [(n, {}) for n in ('variance', 'crps', 'rank_hist', 'spread', 'binned_spread_skill')] + \
            [(n, {k: t}) for n in ('brier', 'brier_decomp', 'reliability', 'roc', 'sharpness', 'cdf') for k in ('over', 'below')] + \
            [('iou_prob', {'over': (t, .5), 'below': (None, None)})]
    elif kind == 'tgamma':
        calls = [('crps', {})]
    else:
        v = ok(c, s, n_sample_members=int(c.rng.integers(1, 9)))
        calls = [('prob_to_ens', {}), ('spread', {}), ('rank_hist', {})]
    if c.rng.random() < .4:
        c.call('set_boot_samples', v.set_boot_samples, 5)
    if c.rng.random() < .4:
        c.call('enable_saving', v.enable_saving, os.path.join(c.tmp(), 'w'))
    for n, kw in calls:
        c.raises('%s of %s' % (n, kind), getattr(v, n), **kw)
        c.count('unsupported metrics')
        c.sig(kind, 'unsupported', n)
    if v.working_directory:
        c.true(os.listdir(v.working_directory) == [], 'an unsupported metric saved %s' % os.listdir(v.working_directory))
        c.count('not writing on rejection')
    if kind not in ('determ', 'hurdle') or c.index % 5 == 0:
        k2 = ['gauss', 'tgauss', 'gamma', 'tgamma'][int(c.rng.integers(4))]
        v = ok(c, spec_of(c, k2))
        for n in ('prob_to_ens', 'spread'):
            c.raises('%s of %s without a number of members' % (n, k2), getattr(v, n))
            c.count('sampling without members')


def thresholds(c):
    s = spec_of(c)
    v = ok(c, s)
    t = float(np.median(s.o))
    names = ['iou_determ'] if s.kind == 'determ' else THR
    if c.rng.random() < .25 and s.kind not in ('determ', 'hurdle'):
        c.env(tqdm_workers=2)
        c.count('rejected in parallel')
    for n in names:
        c.raises('%s of %s without a threshold' % (n, s.kind), getattr(v, n))
        c.count('no threshold')
        c.raises('%s of %s with both thresholds' % (n, s.kind), getattr(v, n), over=t, below=t + float(c.rng.choice([-1, 0, 1])))
        c.count('both thresholds')
        c.sig(s.kind, 'thresholds', n)
    if s.kind == 'determ':
        return
    for over, below in (((t, .5), (t, .5)), ((None, None), (None, None)), ((t, None), (None, None)), ((None, .5), (None, None)),
                        ((t, .5), (None, .5)), ((t, .5), (t, None)), (t, .5), (None, None)):
        c.raises('iou_prob of %s with over=%s and below=%s' % (s.kind, over, below), v.iou_prob, over=over, below=below)
        c.count('both thresholds')
    for p in (-.1, 1.5):
        c.raises('iou_prob with probability %s' % p, v.iou_prob, over=(t, p), below=(None, None))
        c.raises('iou_prob with probability %s' % p, v.iou_prob, below=(t, p), over=(None, None))
    for bad in ((t, .5, 1.), (t,), [t, .5, .5]):
        none = [None] * len(bad)
        c.raises('iou_prob with over=%s and below=%s' % (bad, none), v.iou_prob, over=bad, below=none)
        c.raises('iou_prob with below=%s and over=%s' % (bad, none), v.iou_prob, below=bad, over=none)
    sh, bc = other_shape(c.rng, s.o.shape)
    a = np.full(sh, t)
    for n in ('cdf', 'brier', 'sharpness'):
        k = 'over' if c.rng.random() < .5 else 'below'
        c.raises('%s of %s with thresholds of shape %s instead of %s' % (n, s.kind, sh, s.o.shape), getattr(v, n), **{k: a})
        c.count('threshold arrays')
        c.count('broadcastable threshold arrays', bc)
    c.raises('cdf of %s with thresholds in a list' % s.kind, v.cdf, below=[t] * s.o.shape[-1])
    c.raises('cdf of %s with text as threshold' % s.kind, v.cdf, below='high')


def bins(c):
    kind = mk.PROB[c.index % len(mk.PROB)]
    nd = int(c.rng.integers(1, 4))
    s = spec_of(c, kind, nd)
    ax = core.axes(c.rng, nd)
    n = len(core.rows(s.o, ax)[1][0])
    v = ok(c, s, avg_axis=ax, boot_samples=5 if c.rng.random() < .3 else None)
    c.env(boot_repeats=3)
    c.call('as many bins as samples', v.binned_spread_skill, nbins=n)
    for k in (n + 1, n + int(c.rng.integers(2, 9))):
        c.raises('%d spread-skill bins for %d samples' % (k, n), v.binned_spread_skill, nbins=k)
        c.count('too many bins')
    c.sig(kind, 'bins', n)


def repeated_axes(c):
    """An averaging axis that does not exist or is given twice, also counted from either end."""
    s = spec_of(c, nd=int(c.rng.integers(2, 4)))
    nd = s.o.ndim
    a = int(c.rng.integers(nd))
    boot = int(c.rng.integers(2, 6)) if c.rng.random() < .5 else None
    c.env(boot_repeats=3)
    v = ok(c, s, avg_axis=(a,), boot_samples=boot)
    t = float(np.median(s.o))
    calls = [(n, {}) for n in ('error', 'sq_error', 'ab_error', 'rmse', 'corr')]
    if boot is None:
        calls.append(('iou_determ', {'over': t}))
    if s.kind != 'determ':
        calls += [('binned_spread_skill', {'nbins': 1}), ('reliability', {'over': t, 'nbins': 2})] + [(n, {'over': t}) for n in ('brier', 'brier_decomp')]
    if s.kind not in ('determ', 'tgamma'):
        calls.append(('crps', {}))
    for bad in ((a, a), (a, a - nd), (nd,), (-nd - 1,), (a, nd)):
        def attempt(n, k):
            w = s.build(avg_axis=bad, boot_samples=boot)
            return getattr(w, n)(**k)
        for n, k in calls:
            c.raises('%s of %s averaged over %s of %d axes' % (n, s.kind, bad, nd), attempt, n, k)
            c.count('repeated axes' if bad[0] == a and bad != (a, nd) else 'axes that do not exist')
        c.sig(s.kind, 'axes', bad, boot is None)
    c.raises('set_avg_axis to a repeated axis', lambda: c.call('set_avg_axis', v.set_avg_axis, (a, a)).error())


def split_axis(c):
    """Work is split along an axis that counts from the end; any other is refused, in particular where it exists."""
    kind = mk.PROB[c.index % 6]
    s = spec_of(c, kind)
    nd = s.o.ndim
    members = {} if kind in ('ens', 'hurdle') else {'n_sample_members': 3}
    v = ok(c, s, **members)
    c.env(tqdm_workers=2, tqdm_map_axis=-1)
    t = float(np.median(s.o))
    calls = [('rank_hist', {})] if kind == 'ens' else [('cdf', {'over': t})] + ([('prob_to_ens', {})] if members else [])
    for n, k in calls:
        c.call(n, getattr(v, n), **k)
    for a in (0, nd - 1, nd, nd + 2):
        c.env(tqdm_map_axis=a)
        for n, k in calls:
            c.raises('%s of %s split along axis %d of %d' % (n, kind, a, nd), getattr(v, n), **k)
            c.count('split axes')
        c.sig(kind, 'split', a, nd)


def functions(c):
    """Utility functions that compare two arrays cell by cell refuse arrays of different shapes."""
    from PyAnEn import utils_verify as U, utils_special_boot as P, utils_ss as Q, utils_dist as D
    shp = core.shape(c.rng, int(c.rng.integers(1, 4)), 2, 5)
    bad, bc = other_shape(c.rng, shp)
    a, b = c.rng.random(shp), c.rng.random(shp)
    e = c.rng.random(shp) < .5
    m = int(c.rng.integers(2, 6))
    x = lambda v: resized(c.rng, v, bad)
    boot = int(c.rng.integers(3, 9)) if c.rng.random() < .3 else None
    c.env(boot_repeats=4, tqdm_workers=2 if c.index % 20 == 0 else 1)
    pool = [('corr', lambda p, q: P.corr(p, q, None, boot), a, b), ('brier_decomp', lambda p, q: P.brier_decomp(p, q, None, boot), a, e.astype(float)),
            ('iou_determ', lambda p, q: U.iou_determ(p, q, over=.5), a, b), ('iou_prob', lambda p, q: U.iou_prob(p, q, over=.5), a, e),
            ('reliability_diagram', lambda p, q: U.reliability_diagram(p, q, 3, None, boot), a, e),
            ('binned_spread_skill', lambda p, q: Q.binned_spread_skill(p, q, 1, None, boot), a, b),
            ('sample_dist_gaussian', lambda p, q: D.sample_dist_gaussian(p, q, m), a, b),
            ('sample_dist_gamma', lambda p, q: D.sample_dist_gamma(p, q, -.1 * p, m), a, b),
            ('shift of sample_dist_gamma', lambda p, q: D.sample_dist_gamma(p, p, -.1 * q, m), a, b),
            ('threshold of cdf_gaussian', lambda p, q: D.cdf_gaussian(p, p + .1, q), a, b),
            ('threshold of cdf_gamma', lambda p, q: D.cdf_gamma(p, p, -.1 * p, q), a, b),
            ('threshold of cdf_gamma_hurdle', lambda p, q: D.cdf_gamma_hurdle(p, p, p, q), a, b)]
    for n, fn, p, q in pool:
        c.call(n, fn, p, q)
        c.raises('%s of shapes %s and %s' % (n, shp, bad), fn, p, x(q))
        if not n.startswith(('shift', 'threshold')):
            c.raises('%s of shapes %s and %s' % (n, bad, shp), fn, x(p), q)
        c.count('functions of two arrays')
    c.sig('functions', shp, bad, boot is None)


def method(c):
    s = spec_of(c, 'ens')
    v = ok(c, s)
    bad = ['', 'KDE', 'moment', 'normal', 'None', 'kde '][int(c.rng.integers(6))]
    c.env(ens_to_prob_method=bad, tqdm_workers=2 if c.index % 4 == 0 else 1)
    t = float(np.median(s.o))
    for n in ('cdf', 'brier', 'sharpness', 'roc', 'brier_decomp', 'reliability'):
        c.raises('%s with conversion method %r' % (n, bad), getattr(v, n), **{'over' if c.rng.random() < .5 else 'below': t})
    c.count('unknown methods')
    c.sig('method', bad)


def significance(c):
    dm = PyAnEn.diebold_mariano_test
    n = int(c.rng.integers(4, 30))
    a, p, q = (c.rng.normal(5, 1, n) for _ in range(3))
    crit = ['MSE', 'MAD', 'MAPE', 'poly'][int(c.rng.integers(4))]
    c.call('diebold_mariano_test', dm, a, p, q, 1, crit)
    c.count('consistent input accepted')
    for h in (0, -1, -int(c.rng.integers(2, 9)), n, n + int(c.rng.integers(1, 9)), 1.0, 1.5, '1', None):
        c.raises('horizon %r with %d values' % (h, n), dm, a, p, q, h, crit)
        c.count('horizons')
    for x in ('mse', 'RMSE', '', None, 2, 'MSEE'):
        c.raises('criterion %r' % (x,), dm, a, p, q, 1, x)
        c.count('criteria')
    k = int(c.rng.integers(1, n))
    for x in ((a[:k], p, q), (a, p[:k], q), (a, p, q[:k]), (a[:k], p[:k], q), (a, p[:1], q[:1]), (a[:1], p, q)):
        c.raises('lengths %s' % str([len(v) for v in x]), dm, *x)
        c.count('lengths')
    for x in ((a.tolist(), p, q), (a, p.tolist(), q), (a, p, q.tolist()), (a, 1.0, q)):
        c.raises('series that are no arrays', dm, *x)
        c.count('data that are no arrays')
    c.sig('dm', n, crit)


def matrices(c):
    d = c.tmp()
    path = os.path.join(d, 'm.txt')
    shp = [(), (3,), (2, 3, 1), (1, 1, 1), (2, 1, 2, 2), (0,)][int(c.rng.integers(6))]
    existing = c.rng.random() < .4
    if existing:
        with open(path, 'w') as f:
            f.write('kept')
    for x in (np.asarray(c.rng.normal(0, 1, shp)), [[1., 2.], [3., 4.]], 3.0, None):
        for ow in (False, True):
            c.raises('writing data of shape %s' % (np.shape(x),), write_matrix, path, x, ow)
            c.count('matrices')
            if existing:
                c.true(open(path).read() == 'kept', 'a rejected matrix overwrote the file')
            else:
                c.true(not os.path.exists(path), 'a rejected matrix created a file')
            c.count('not writing on rejection')
    c.sig('matrix', shp, existing)


WORKLOADS = [('shapes', shapes, 400, 8000), ('member_axis', member_axis, 30, 400), ('parameters', parameters, 40, 500),
             ('no_arrays', no_arrays, 42, 420), ('types', types, 220, 4000), ('unsupported', unsupported, 45, 450),
             ('thresholds', thresholds, 63, 700), ('bins', bins, 48, 800), ('repeated_axes', repeated_axes, 56, 600), ('split_axis', split_axis, 12, 120), ('functions', functions, 40, 800), ('method', method, 24, 240),
             ('significance', significance, 20, 400), ('matrices', matrices, 20, 300)]
