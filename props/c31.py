"""Settings have defaults, keep user values and act on the next call."""
import contextlib
import io
import json
import os
import subprocess
import sys
import threading
import numpy as np
from mon import core, mk
from .c06 import kernel_cdf
from .c24 import spied, grid

RULE = 'distinct (preset settings) imported and distinct (setting changed, value, metric) calls that followed the value in force'
REQUIRE = ['imports', 'narrow kernels', 'presets kept', 'defaults given', 'empty presets', 'imports through a submodule', 'repeated imports', 'settings printed',
           'repeats', 'confidence', 'method', 'kernel', 'bandwidth', 'skip_nan', 'metrics that skip', 'workers', 'multiplier', 'memory', 'spellings', 'changes of settings', 'silent calls',
           'calls that show progress', 'arguments instead of settings', 'relative directories']

DEFAULTS = {'pyanen_ens_to_prob_method': 'moments', 'pyanen_kde_bandwidth': 0.01, 'pyanen_kde_kernel': 'gaussian', 'pyanen_kde_samples': 1000,
            'pyanen_kde_multiply_spread': 5, 'pyanen_boot_confidence': 0.95, 'pyanen_boot_repeats': 1000, 'pyanen_boot_samples': 300,
            'pyanen_tqdm_disable': True, 'pyanen_tqdm_leave': False, 'pyanen_tqdm_workers': 1, 'pyanen_tqdm_map_axis': -1,
            'pyanen_tqdm_chunksize': 1, 'pyanen_use_tensorflow_math': False, 'pyanen_skip_nan': False,
            'pyanen_split_crps_ensemble_along_0': False, 'pyanen_integrate_range_multiplier': 5,
            'pyanen_integrate_with_less_memory': False, 'pyanen_integrate_wdir': ''}

# Imports the package again and again, each time into an environment of its own.
CHILD = r'''
import io, json, os, sys, contextlib, importlib
for line in sys.stdin:
    job = json.loads(line)
    for k in [k for k in os.environ if k.startswith('pyanen_')]:
        del os.environ[k]
    os.environ.update(job['preset'])
    for m in [m for m in sys.modules if m == 'PyAnEn' or m.startswith('PyAnEn.')]:
        del sys.modules[m]
    before = dict(os.environ)
    importlib.import_module(job['module'])
    import PyAnEn
    now = {k: v for k, v in os.environ.items() if k.startswith('pyanen_')}
    other = sorted(k for k in set(before) | set(os.environ) if not k.startswith('pyanen_') and before.get(k) != os.environ.get(k))
    if job['after']:
        os.environ.update(job['after'])
        importlib.reload(PyAnEn)
    again = {k: v for k, v in os.environ.items() if k.startswith('pyanen_')}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        PyAnEn.print_settings()
    print('RESULT ' + json.dumps({'env': now, 'other': other, 'again': again, 'printed': out.getvalue()}), flush=True)
'''


def same(got, want):
    """Text of a default: the same number or word, however it is written."""
    if isinstance(want, bool):
        return got.lower() in (('true', '1', 'yes', 'on', 't', 'y') if want else ('false', '0', 'no', 'off', 'f', 'n'))
    if isinstance(want, (int, float)):
        try:
            return float(got) == want
        except ValueError:
            return False
    return got == want


def imports(c):
    n = 8 if c.tier == 'quick' else 30
    names = sorted(DEFAULTS)
    jobs = []
    for i in range(n):
        r = c.rng.random()
        k = 0 if r < .15 else len(names) if r > .9 else int(c.rng.integers(1, len(names)))
        preset = {}
        for j in c.rng.permutation(len(names))[:k]:
            nm = names[int(j)]
            preset[nm] = ['', '0', 'False', 'True', '7', 'user value', str(DEFAULTS[nm])][int(c.rng.integers(7))]
        after = {}
        if c.rng.random() < .4:
            after = {names[int(j)]: 'changed%d' % i for j in c.rng.permutation(len(names))[:3]}
        mod = ['PyAnEn', 'PyAnEn', 'PyAnEn.utils_verify', 'PyAnEn.VerifyEnsemble', 'PyAnEn.utils_significance'][int(c.rng.integers(5))]
        jobs.append({'preset': preset, 'module': mod, 'after': after})
    env = {k: v for k, v in os.environ.items() if not k.startswith('pyanen_')}
    p = c.call('import in a new process', subprocess.run, [sys.executable, '-c', CHILD], input=''.join(json.dumps(j) + '\n' for j in jobs),
               capture_output=True, text=True, env=env, timeout=300)
    res = [json.loads(x[7:]) for x in p.stdout.split('\n') if x.startswith('RESULT ')]
    c.true(len(res) == n, 'import failed: %s' % p.stderr[-600:])
    for j, r in zip(jobs, res):
        for k, want in DEFAULTS.items():
            c.true(k in r['env'], '%s is not set after import' % k)
            if k in j['preset']:
                c.true(r['env'][k] == j['preset'][k], 'import replaced %s=%r of the user by %r' % (k, j['preset'][k], r['env'][k]))
                c.count('presets kept')
                c.count('empty presets', j['preset'][k] == '')
            else:
                c.true(same(r['env'][k], want), '%s is %r by default instead of %r' % (k, r['env'][k], want))
                c.count('defaults given')
            if k in j['after']:
                c.true(r['again'][k] == j['after'][k], 'a second import replaced %s=%r of the user by %r' % (k, j['after'][k], r['again'][k]))
                c.count('repeated imports')
            c.true(k in r['printed'] and r['again'][k] in r['printed'], 'print_settings does not show %s=%r' % (k, r['again'][k]))
        c.true(not [x for x in r['other'] if not x.startswith(('RAY', 'KMP', 'OMP', 'PYTHON'))], 'import changed the environment: %s' % r['other'])
        c.count('imports')
        c.count('settings printed')
        c.count('imports through a submodule', j['module'] != 'PyAnEn')
        c.sig('import', tuple(sorted(j['preset'])), j['module'])


TRUE, FALSE = ['True', 'true', '1', 'yes', 'on', 'TRUE', 'y', 't', 'Yes', 'T'], ['False', 'false', '0', 'no', 'off', 'n', 'f', 'FALSE', 'NO', 'N']


def boot(c):
    """Repeats and confidence of one verifier changed between calls."""
    spec = mk.make(c.rng, 'ens' if c.rng.random() < .5 else 'gauss', (12, 3), distinct=True)
    t = float(np.median(spec.o))
    v = c.call('construct', spec.build, avg_axis=0, boot_samples=12)
    pool = [('error', {}), ('sq_error', {}), ('ab_error', {}), ('crps', {}), ('brier', {'over': t}), ('corr', {}),
            ('binned_spread_skill', {'nbins': 2})]
    name, kw = pool[c.index % len(pool)]
    if c.index % 3 == 0:
        v.enable_saving(os.path.join(c.tmp(), 'w'))

    def width():
        np.random.seed(7)
        r = c.call(name, getattr(v, name), **kw)
        if name == 'binned_spread_skill':
            r = np.moveaxis(np.asarray(r[1]), -1, 0)
        r = np.asarray(r)
        c.true(r.shape[0] == 3, '%s has shape %s' % (name, r.shape))
        return r

    for step in range(4):
        c.env(boot_repeats=1, boot_confidence=.95)
        r = width()
        c.close('%s with one repeat: lower bound and mean' % name, r[0], r[1], 1e-9, 1e-12)
        c.close('%s with one repeat: upper bound and mean' % name, r[2], r[1], 1e-9, 1e-12)
        R = int(c.rng.choice([20, 40, 80]))
        c.env(boot_repeats=R)
        ws = []
        for conf in sorted(c.rng.choice([.1, .2, .35, .5, .65, .8, .95, .99], 4, replace=False)):
            c.env(boot_confidence=float(conf))
            ws.append(width())
            c.count('confidence')
        for a, b in zip(ws, ws[1:]):
            c.close('%s mean after another confidence' % name, a[1], b[1], 1e-9, 1e-12)
            if name != 'brier':         # its resampled values are few
                c.true(np.all(b[2] - b[0] > a[2] - a[0]), '%s: a higher confidence does not give a wider interval' % name)
            c.true(np.all(b[0] <= a[0] + 1e-12) and np.all(b[2] >= a[2] - 1e-12), '%s: a higher confidence gives a narrower interval' % name)
        c.true(np.all(ws[0][2] - ws[0][0] < ws[-1][2] - ws[-1][0]), '%s: the interval does not depend on the confidence' % name)
        c.true(np.all(ws[-1][2] > ws[-1][0]), '%s: %d repeats give no interval' % (name, R))
        c.count('repeats')
        c.count('changes of settings', 5)
        c.sig('boot', spec.kind, name, R)


def convert(c):
    """Conversion method and kernel parameters of one ensemble verifier changed between calls."""
    shp = core.shape(c.rng, nd=int(c.rng.integers(1, 3)), lo=1, hi=3)
    m = int(c.rng.integers(3, 8))
    unit = 10. ** -float(c.rng.uniform(2, 6)) if c.index % 3 == 0 else 1.
    c.count('narrow kernels', unit < 1)
    M = c.rng.normal(5, 2, (m,) + shp) * unit
    o = c.rng.normal(5, 2, shp) * unit
    v = c.call('construct', mk.CLS['ens'], M, o, ensemble_axis=0)
    t = float(M.mean())
    span = 2 * (M.max() - M.min()) + 1
    for step in range(6):
        kern = ['gaussian', 'tophat', 'epanechnikov', 'exponential'][int(c.rng.integers(4))]
        bw = float(c.rng.choice([.3, .8, 2.])) * unit
        meth = 'kde' if c.rng.random() < .7 else 'moments'
        ns = 40000 if c.rng.random() < .25 else 4000
        c.env(ens_to_prob_method=meth, kde_bandwidth=bw, kde_kernel=kern, kde_samples=ns, kde_multiply_spread=30)
        got = c.call('cdf', v.cdf, below=t)
        if meth == 'moments':
            c.close('share of members', got, (M <= t).mean(0), 1e-12, 1e-12)
        else:
            want = kernel_cdf(kern, (t - M) / bw).mean(0)
            h = 60 * (M.max(0) - M.min(0)) / ns
            c.true(np.all(np.abs(got - want) <= h / bw * 1.5 + .02), '%s kernel with bandwidth %s: %s instead of %s' % (
                kern, bw, core.brief(got), core.brief(want)))
            c.count('kernel')
            c.count('bandwidth')
        c.count('method')
        c.count('changes of settings')
        c.sig('convert', meth, kern, bw)


def skipped(c, spec, v, on, sp):
    """Every metric that can skip missing cells: no NaN and no error with skipping, NaN or an error without."""
    t = float(np.nanmedian(spec.o))
    pool = [('corr', {})]
    if spec.kind != 'determ':
        pool += [('brier', {'over': t}), ('brier_decomp', {'below': t}), ('crps', {}),
                 ('binned_spread_skill', {'nbins': 2})]
    for name, kw in pool:
        what = '%s with skip_nan=%s' % (name, sp)
        if on:
            got = c.call(what, getattr(v, name), **kw)
            for p in core.flatten(got):
                c.true(p.dtype.kind not in 'fi' or not np.isnan(p).all(), '%s: everything is missing: %s' % (what, core.brief(p)))
        else:
            try:
                got = getattr(v, name)(**kw)
            except Exception:
                c.count('metrics that refuse missing cells')
                continue
            c.true(any(np.isnan(p.astype(float)).any() for p in core.flatten(got) if p.dtype.kind in 'fi'),
                   '%s: missing cells were skipped: %s' % (what, core.brief(got)))
        c.count('metrics that skip' if on else 'metrics that do not skip')


def nan(c):
    """NaN skipping of one verifier switched between calls, in any accepted spelling."""
    kind = ['determ', 'ens', 'gauss', 'gamma'][c.index % 4]
    spec = mk.make(c.rng, kind, (6, 3), distinct=True)
    hole = c.rng.random((6, 3)) < .3
    hole[0], hole[1] = False, True
    spec.o = np.where(hole, np.nan, spec.o)
    v = c.call('construct', spec.build, avg_axis=0)
    d = spec.determ() - spec.o
    for step in range(6):
        on = bool(c.rng.random() < .5)
        sp = (TRUE if on else FALSE)[int(c.rng.integers(len(TRUE if on else FALSE)))]
        c.env(skip_nan=sp)
        for name, x in (('error', d), ('sq_error', d * d), ('ab_error', np.abs(d))):
            want = np.nanmean(x, axis=0) if on else np.full(3, np.nan)
            c.close('%s with skip_nan=%s' % (name, sp), c.call(name, getattr(v, name)), want, 1e-9, 1e-9)
        skipped(c, spec, v, on, sp)
        if kind in ('ens', 'gauss'):
            if on:
                r = c.call('rank_hist', v.rank_hist) if kind == 'ens' else None
                c.true(r is None or np.isnan(r).sum() == hole.sum(), 'ranks of missing observations')
            elif kind == 'ens':
                c.raises('ranks of missing observations', v.rank_hist)
        c.count('skip_nan')
        c.count('spellings')
        c.count('changes of settings')
        c.sig('nan', kind, sp)


class Started:
    """Counts processes and threads started inside."""
    def __enter__(self):
        self.n = 0
        self.fork, self.start = os.fork, threading.Thread.start
        me = self

        def fork():
            me.n += 1
            return me.fork()

        def start(t):
            me.n += 1
            return me.start(t)
        os.fork, threading.Thread.start = fork, start
        return self

    def __exit__(self, *a):
        os.fork, threading.Thread.start = self.fork, self.start


def workers(c):
    kind = ['gauss', 'ens', 'gamma', 'tgauss', 'hurdle', 'tgamma'][c.index % 6]
    spec = mk.make(c.rng, kind, (2, 3), distinct=True)
    v = c.call('construct', spec.build)
    t = float(np.median(spec.o))
    for n in ([1, 2, 1] if c.rng.random() < .5 else [2, 1, 3]):
        c.env(tqdm_workers=n)
        with Started() as s:
            got = c.call('cdf with %d workers' % n, v.cdf, below=t)
        c.close('cdf with %d workers' % n, got, spec.cdf(t), 1e-9, 1e-10)
        c.true((s.n > 0) == (n > 1), '%d workers requested, %d processes and threads started' % (n, s.n))
        c.count('workers')
        c.count('changes of settings')
        c.sig('workers', kind, n)


def integration(c):
    """Range multiplier and memory mode of one verifier changed between calls."""
    spec = mk.make(c.rng, 'hurdle', core.shape(c.rng, nd=int(c.rng.integers(1, 3)), lo=2, hi=3), distinct=True)
    spec.kw = {}
    log = []
    v = spied(spec, log)
    lo, hi = float(spec.o.min()), float(spec.o.max())
    fns = {'f_determ': v.f_determ, 'variance': v.variance, 'crps': v.crps}
    for step in range(5):
        k = int(c.rng.integers(1, 9)) if c.words.random() < .7 else int(c.words.integers(9, 60))
        less = bool(c.rng.random() < .5)
        nm = sorted(fns)[int(c.rng.integers(3))]
        d = c.tmp()
        wdir = d
        if c.words.random() < .4:       # relative to the current directory, whatever it is called
            wdir = str(c.words.choice(['None', 'False', '0', 'none', 'tmp', 'a b', '.']))
            os.makedirs(wdir, exist_ok=True)
            d = os.path.realpath(wdir)
            c.count('relative directories')
        os.environ['pyanen_integrate_wdir'] = wdir
        c.env(integrate_range_multiplier=k,
              integrate_with_less_memory=(TRUE if less else FALSE)[int(c.rng.integers(3))])
        del log[:]
        with c.record() as rec:
            c.call(nm, fns[nm])
        grid(c, '%s with multiplier %d' % (nm, k), log, lo - k * (hi - lo), hi + k * (hi - lo), 20)
        wrote = [e for e in rec.events if e[0] == 'write' and e[1].startswith(d)]
        if wdir not in (d, '.'):
            os.rmdir(wdir)
        c.true(bool(wrote) == less, 'low memory %s, but %d files were written' % (less, len(wrote)))
        c.count('multiplier')
        c.count('memory')
        c.count('spellings')
        c.count('changes of settings')
        c.sig('integration', k, less, nm)


def bars(c):
    """Progress is shown only when asked for."""
    kind = mk.KINDS[c.index % 7]
    shp = core.shape(c.rng, nd=2, lo=2, hi=4)
    spec = mk.make(c.rng, kind, shp, distinct=True)
    if kind == 'hurdle':
        spec.kw['n_approx_bins'] = 8
    ax = int(c.rng.integers(2))
    boot = 5 if c.rng.random() < .5 else None
    v = c.call('construct', spec.build, avg_axis=ax, boot_samples=boot)
    pool = [x for x in mk.pool(c, spec, None, min(shp)) if x[0] not in ('corr', 'roc')]
    c.env(boot_repeats=4)
    for i in range(8):
        n, k = pool[int(c.rng.integers(len(pool)))]
        if kind == 'hurdle' and i in (3, 6):
            n, k = ['crps', 'f_determ', 'variance'][int(c.rng.integers(3))], {}
        off = bool(c.rng.random() < .6)
        c.env(tqdm_disable=(TRUE if off else FALSE)[int(c.rng.integers(10))], tqdm_workers=int(c.rng.choice([1, 1, 2])) if kind != 'hurdle' else 1)
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            c.call(n, getattr(v, n), **k)
        if off:
            c.true(not out.getvalue() and not err.getvalue(), '%s printed %r with progress bars disabled' % (n, (out.getvalue() + err.getvalue())[:200]))
            c.count('silent calls')
        elif kind == 'hurdle' and n in ('crps', 'f_determ', 'variance'):
            c.true(bool(err.getvalue() or out.getvalue()), 'integration showed no progress with progress bars enabled')
            c.count('calls that show progress')
        c.count('changes of settings')
        c.sig('bars', kind, n, off)


def outcome(c, fn, seed):
    np.random.seed(seed)
    try:
        return core.flatten(fn())
    except Exception as e:
        return type(e).__name__


def explicit(c):
    """What is given as an argument counts, whatever the settings say."""
    n, k = int(c.rng.integers(20, 40)), int(c.rng.integers(1, 4))
    f = c.rng.normal(0, 1, (n, k))
    o = .5 * f + c.rng.normal(0, 1, (n, k))
    p = c.rng.random((n, k))
    e = (c.rng.random((n, k)) < p).astype(float)
    var, sq = c.rng.gamma(2, 1, (n, k)), c.rng.gamma(2, 1, (n, k))
    hole = c.rng.random((n, k)) < .2
    hole[:3] = False
    hole[-1] = True
    ens = np.concatenate([[.3], c.rng.normal(0, 1, 6)])
    m = int(c.rng.integers(3, 30))
    A = {'boot_repeats': int(c.rng.integers(5, 15)), 'boot_confidence': float(c.rng.choice([.5, .9, .8875, .125])), 'skip_nan': bool(c.rng.random() < .5),
         'boot_samples': int(c.rng.integers(5, 40)), 'kde_bandwidth': float(c.rng.choice([.4, .0625, .4375])), 'kde_kernel': 'gaussian', 'kde_samples': 200, 'kde_multiply_spread': 3}
    B = {'boot_repeats': int(c.rng.integers(16, 30)), 'boot_confidence': float(c.rng.choice([.7, .95, .995, .3125, .9375])), 'skip_nan': not A['skip_nan'],
         'boot_samples': int(c.rng.integers(41, 80)), 'kde_bandwidth': float(c.rng.choice([.9, 1.0625, .0125])), 'kde_kernel': 'tophat', 'kde_samples': int(c.rng.choice([300, 20000])), 'kde_multiply_spread': 6}
    nan = lambda x: np.where(hole, np.nan, x)
    R, C, S = ('repeats', 'boot_repeats'), ('confidence', 'boot_confidence'), ('skip_nan', 'skip_nan')
    N = ('n_samples', 'boot_samples')
    from PyAnEn import utils_verify as U, utils_special_boot as P, utils_ss as Q
    pool = [('boot_arr', lambda **q: U.boot_arr(f, sample_axis=(0,), **q), (R, C, N)),
            ('boot_vec', lambda **q: U.boot_vec(f[:, 0], **q), (R, C, N)),
            ('corr', lambda **q: P.corr(f, o, (0,), m, **q), (R, C)),
            ('corr with missing values', lambda **q: P.corr(f, nan(o), (0,), **q), (S,)),
            ('resampled corr with missing values', lambda **q: P.corr(f, nan(o), (0,), m + 20, **q), (R, C, S)),
            ('brier_decomp', lambda **q: P.brier_decomp(p, e, (0,), m, **q), (R, C)),
            ('brier_decomp with missing values', lambda **q: P.brier_decomp(p, nan(e), (0,), **q), (S,)),
            ('resampled brier_decomp with missing values', lambda **q: P.brier_decomp(p, nan(e), (0,), m, **q), (R, C, S)),
            ('binned_spread_skill', lambda **q: Q.binned_spread_skill(var, sq, 3, (0,), boot_samples=m, **q), (R, C)),
            ('binned_spread_skill with missing values', lambda **q: Q.binned_spread_skill(var, nan(sq), 2, (0,), **q), (S,)),
            ('resampled binned_spread_skill with missing values', lambda **q: Q.binned_spread_skill(var, nan(sq), 2, (0,), boot_samples=m, **q), (R, C, S)),
            ('reliability_diagram', lambda **q: U.reliability_diagram(p, e, 4, None, boot_samples=m, **q), (R, C)),
            ('reliability_diagram with missing values', lambda **q: U.reliability_diagram(p, nan(e), 4, None, **q), (S,)),
            ('resampled reliability_diagram with missing values', lambda **q: U.reliability_diagram(p, nan(e), 4, None, boot_samples=m, **q), (R, C, S)),
            ('ens_to_prob_kde', lambda **q: U.ens_to_prob_kde(ens, **q), (('bandwidth', 'kde_bandwidth'), ('kernel', 'kde_kernel'),
                                                                         ('samples', 'kde_samples'), ('spread_multiplier', 'kde_multiply_spread')))]
    for name, fn, args in pool:
        given = [a for a in args if c.rng.random() < .6] or [args[int(c.rng.integers(len(args)))]]
        seed = int(c.rng.integers(2 ** 31))
        c.env(**A)
        got = outcome(c, lambda: fn(**{a: B[k_] for a, k_ in given}), seed)
        c.env(**dict(A, **{k_: B[k_] for a, k_ in given}))
        want = outcome(c, fn, seed)
        what = '%s with %s given as arguments' % (name, ', '.join(a for a, _ in given))
        if isinstance(got, str) or isinstance(want, str):
            c.true(isinstance(got, str) and isinstance(want, str), '%s: %s instead of %s as with the settings' % (what, core.brief(got), core.brief(want)))
            c.count('arguments that make a call fail')
        else:
            c.close_tree(what, got, want, 1e-9, 1e-12)
        c.count('arguments instead of settings')
        c.sig('explicit', name, tuple(a for a, _ in given), A['skip_nan'])


WORKLOADS = [('explicit', explicit, 24, 400), ('bars', bars, 28, 400), ('imports', imports, 3, 12), ('boot', boot, 28, 400), ('convert', convert, 30, 500), ('nan', nan, 40, 600),
             ('workers', workers, 12, 120), ('integration', integration, 30, 500)]
