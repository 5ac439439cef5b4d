"""Cases, boundary events, oracles' comparison primitives, data generators."""
import json
import os
import shutil
import zlib

import numpy as np
import PyAnEn

from .sandbox import Recorder, Escape

# What the settings are when nobody touches them: as the package itself leaves them after import.
DEFAULTS = {k: os.environ[k] for k in os.environ if k.startswith('pyanen_')}
DEFAULTS_KEYS = sorted(DEFAULTS)


SPELLINGS = {'True': ['true', 'yes', 'y', 't', 'on', '1'], 'False': ['false', 'no', 'n', 'f', 'off', '0']}


class Violation(Exception):
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.detail = detail


class Inconclusive(Exception):
    pass


def brief(x, n=12):
    if isinstance(x, np.ndarray):
        if x.size <= n:
            return 'array%s %s' % (x.shape, np.array2string(x, precision=17, threshold=50).replace('\n', ' '))
        return 'array%s %s [%s ...]' % (x.shape, x.dtype, ', '.join(repr(v) for v in x.ravel()[:4].tolist()))
    if isinstance(x, dict):
        return '{' + ', '.join('%s: %s' % (k, brief(v, 4)) for k, v in x.items()) + '}'
    if isinstance(x, (tuple, list)):
        return '(' + ', '.join(brief(v, 6) for v in x) + ')'
    return repr(x)[:200]


class Ctx:
    def __init__(self, prop, tier, seed, sb, known):
        self.prop, self.tier, self.seed, self.sb, self.known = prop, tier, seed, sb, known
        self.evaluations = 0
        self.signatures = set()
        self.samples = []
        self.counters = {}
        self.calls = {}
        self.violations = []
        self.inconclusive = []
        self.findings = set()
        self.timing = {}

    def case(self, workload, index):
        return Case(self, workload, index)

    def violate(self, case, msg, detail):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        path = os.path.join(here, 'evidence', 'replays', '%s-%s-%d-s%d.json' % (self.prop, case.workload, case.index, self.seed))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'workload': case.workload, 'index': case.index, 'seed': self.seed,
                       'tier': self.tier, 'message': msg, 'detail': detail, 'case': case.desc,
                       'trace': case.trace[-60:],
                       'how': 'bash run.sh %s --replay %s' % (self.prop, path)}, f, indent=1, default=str)
        self.violations.append((path, '%s[%d]: %s' % (case.workload, case.index, msg)))


class Case:
    def __init__(self, ctx, workload, index):
        self.ctx, self.workload, self.index = ctx, workload, index
        self.tier = ctx.tier
        self.sb = ctx.sb
        key = [ctx.seed & 0xffffffff, zlib.crc32(ctx.prop.encode()), zlib.crc32(workload.encode()), index]
        self.rng = np.random.default_rng(key)
        self.npseed = int(np.random.SeedSequence(key).generate_state(1)[0])
        self.words = np.random.default_rng(key + [7])
        self.trace = []
        self.desc = {}
        self._dirs = []

    # -- life cycle ---------------------------------------------------------------------
    def begin(self):
        self.reset_env()
        np.random.seed(self.npseed)
        os.chdir(self.sb.cwd)

    def end(self):
        self.ctx.evaluations += 1
        if len(self.ctx.samples) < 6 and (self.index == 0 or len(self.ctx.samples) < 3):
            self.ctx.samples.append({'workload': self.workload, 'index': self.index, 'case': self.desc})

    def cleanup(self):
        self.sb.events = None
        self.sb.hook_fn = None
        self.reset_env()
        os.chdir(self.sb.cwd)
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)

    def reset_env(self):
        for k in [k for k in os.environ if k.startswith('pyanen_') and k not in DEFAULTS]:
            del os.environ[k]
        os.environ.update(DEFAULTS)

    def env(self, **kw):
        for k, v in kw.items():
            if str(v) in SPELLINGS:         # yes and no are written in many ways
                words = SPELLINGS[str(v)]
                v = words[int(self.words.integers(len(words)))]
                v = v if self.words.random() < .5 else v.upper() if self.words.random() < .5 else v.capitalize()
            os.environ['pyanen_' + k] = str(v)

    def ambient(self):
        """Settings that may have any value in properties about complete data."""
        rng = np.random.default_rng([self.npseed, 11])
        if rng.random() < .3:
            self.env(skip_nan=True)
            self.count('cases that skip missing values')
        if rng.random() < .15:
            self.env(split_crps_ensemble_along_0=True)
            self.count('cases that split the CRPS')

    def tmp(self):
        d = self.sb.fresh()
        self._dirs.append(d)
        return d

    def record(self):
        return Recorder(self.sb)

    # -- description of what this case is -------------------------------------------------
    def sig(self, *parts):
        self.ctx.signatures.add((self.workload,) + tuple(str(p) for p in parts))

    def say(self, **kw):
        for k, v in kw.items():
            self.desc[k] = v if isinstance(v, (int, float, str, bool, type(None))) else brief(v)

    def count(self, name, n=1):
        self.ctx.counters[name] = self.ctx.counters.get(name, 0) + int(n)

    # -- boundary -------------------------------------------------------------------------
    def call(self, label, fn, *a, **k):
        """Call the code under test; any exception on valid input is a violation."""
        self.ctx.calls[label] = self.ctx.calls.get(label, 0) + 1
        self.trace.append('call %s%s%s' % (label, brief(a) if a else '', brief(k) if k else ''))
        try:
            r = fn(*a, **k)
        except Violation:
            raise
        except Exception as e:
            self.trace.append('  raised %s: %s' % (type(e).__name__, str(e)[:200]))
            import traceback
            raise Violation('%s raised %s: %s' % (label, type(e).__name__, str(e)[:300]),
                            traceback.format_exc()[-2500:])
        self.trace.append('  returned ' + brief(r))
        return r

    def raises(self, label, fn, *a, **k):
        """Call the code under test on invalid input: it has to raise."""
        self.ctx.calls[label] = self.ctx.calls.get(label, 0) + 1
        self.trace.append('call(invalid) %s%s%s' % (label, brief(a), brief(k)))
        try:
            r = fn(*a, **k)
        except Escape:
            raise
        except Exception as e:
            self.trace.append('  raised %s: %s' % (type(e).__name__, str(e)[:200]))
            return e
        self.fail('%s accepted invalid input and returned %s' % (label, brief(r)))

    # -- oracles --------------------------------------------------------------------------
    def fail(self, msg, detail=None):
        raise Violation(msg, detail)

    def true(self, cond, msg, detail=None):
        if not cond:
            raise Violation(msg, detail)

    def finding(self, key, msg):
        """A violation with a recorded mechanism: reported as known if listed, else a violation."""
        if key in self.ctx.known:
            self.ctx.findings.add(key)
        else:
            raise Violation(msg)

    def close(self, what, got, want, rtol=1e-9, atol=1e-11):
        got_, want_ = np.asarray(got), np.asarray(want)
        if got_.shape != want_.shape:
            self.fail('%s: shape %s instead of %s' % (what, got_.shape, want_.shape),
                      'got %s want %s' % (brief(got_), brief(want_)))
        g, w = got_.astype(float), want_.astype(float)
        with np.errstate(all='ignore'):
            ok = np.isfinite(w) & (np.abs(g - w) <= atol + rtol * np.abs(w))
        ok |= (np.isnan(g) & np.isnan(w)) | (g == w)
        if not np.all(ok):
            i = np.unravel_index(int(np.argmin(ok)), ok.shape) if ok.shape else ()
            self.fail('%s: %r instead of %r at %s (%d of %d cells differ)' % (
                what, float(g[i]), float(w[i]), i, int((~ok).sum()), ok.size),
                'got %s want %s' % (brief(got_), brief(want_)))
        self.count('values compared', g.size)

    def same(self, what, got, want):
        """Bit-identical structures of arrays."""
        self.close_tree(what, got, want, 0.0, 0.0)

    def close_tree(self, what, got, want, rtol=1e-9, atol=1e-11):
        g, w = flatten(got), flatten(want)
        if len(g) != len(w):
            self.fail('%s: %d parts instead of %d' % (what, len(g), len(w)), 'got %s want %s' % (brief(got), brief(want)))
        for i, (a, b) in enumerate(zip(g, w)):
            self.close('%s part %d' % (what, i) if len(g) > 1 else what, a, b, rtol, atol)


def flatten(x):
    """Arrays of a result, whatever containers and pandas objects hold them."""
    if isinstance(x, (tuple, list)):
        out = []
        for e in x:
            out += flatten(e)
        return out
    if x is None:
        return []
    if hasattr(x, 'to_numpy') and hasattr(x, 'index'):
        return [np.asarray(x.index), x.to_numpy()]
    return [np.asarray(x)]


# ------------------------------------------------------------------------------ reference reduction

def norm_axes(axes, ndim):
    if axes is None:
        return tuple(range(ndim))
    if isinstance(axes, int):
        axes = (axes,)
    return tuple(sorted(a % ndim for a in axes))


def rows(arr, axes):
    """-> (kept shape, list over kept cells of flattened samples): plain indexing, cell by cell."""
    ax = norm_axes(axes, arr.ndim)
    kept = [d for d in range(arr.ndim) if d not in ax]
    kshape = tuple(arr.shape[d] for d in kept)
    out = []
    for idx in np.ndindex(*kshape):
        sl = [slice(None)] * arr.ndim
        for d, i in zip(kept, idx):
            sl[d] = i
        out.append(np.asarray(arr[tuple(sl)]).ravel())
    return kshape, out


def cell_index(axes, ndim, idx):
    """Index tuple of one kept cell."""
    ax = norm_axes(axes, ndim)
    kept = [d for d in range(ndim) if d not in ax]
    sl = [slice(None)] * ndim
    for d, i in zip(kept, idx):
        sl[d] = i
    return tuple(sl)


def reduce_rows(arr, axes, fn=np.mean):
    kshape, rs = rows(arr, axes)
    return np.array([fn(r) for r in rs]).reshape(kshape)


def reduce2(f, o, axes, fn):
    kshape, fr = rows(f, axes)
    _, orr = rows(o, axes)
    out = np.array([fn(a, b) for a, b in zip(fr, orr)])
    return out.reshape(kshape + out.shape[1:])


# ------------------------------------------------------------------------------ generators

LARGE = None        # (smallest, largest) size of generated arrays in cases that ask for large ones


MANY = None         # (smallest, largest) number of members in cases that ask for many of them


def many(fn, lo=130, hi=1500):
    """The same workload with many members."""
    def run(c):
        global MANY
        MANY = (lo, hi)
        try:
            fn(c)
        finally:
            MANY = None
        c.count('many members')
    return run


def with_many(workloads, names, quick, thorough, lo=130, hi=1500):
    return [('many_' + n, many(f, lo, hi), quick, thorough) for n, f, _, _ in workloads if n in names]


def large(fn, lo=1500, hi=12000):
    """The same workload over larger arrays."""
    def run(c):
        global LARGE
        LARGE = (lo, hi)
        try:
            fn(c)
        finally:
            LARGE = None
        c.count('large arrays')
    return run


def larger(workloads, names, quick, thorough, lo=1500, hi=12000):
    """Entries that repeat workloads over larger arrays."""
    tag = 'large_' if hi < 50000 else 'huge_'
    return [(tag + n, large(f, lo, hi), quick, thorough) for n, f, _, _ in workloads if n in names]


def _large_shape(rng, nd):
    while True:
        size = np.exp(rng.uniform(np.log(LARGE[0]), np.log(LARGE[1])))
        w = rng.dirichlet(np.full(nd, 2.))
        s = tuple(max(1, int(round(size ** x))) for x in w)
        if LARGE[0] <= np.prod(s) <= LARGE[1]:
            return s


def shape(rng, nd=None, lo=1, hi=5, maxsize=200):
    nd = int(rng.integers(1, 5)) if nd is None else nd
    if LARGE:
        return _large_shape(rng, nd)
    if MANY:
        maxsize = min(maxsize, 60)
    while True:
        s = tuple(int(v) for v in rng.integers(lo, hi + 1, nd))
        if np.prod(s) <= maxsize:
            return s


def axes(rng, nd, allow_none=True, proper=None):
    """A choice of averaging axes: None, int, tuple or list, unordered, signs mixed."""
    if allow_none and rng.random() < 0.15:
        return None
    k = int(rng.integers(1, nd + 1))
    if proper and nd > 1:
        k = int(rng.integers(1, nd))
    ax = [int(a) for a in rng.permutation(nd)[:k]]
    style = rng.random()
    if style < 0.35:
        ax = [a - nd if rng.random() < 0.5 else a for a in ax]
    elif style < 0.5:
        ax = [a - nd for a in ax]
    if k == 1 and rng.random() < 0.5:
        return ax[0]
    return tuple(ax) if rng.random() < 0.6 else list(ax)


def layout(rng, a):
    """Same values, another memory layout."""
    r = rng.random()
    if r < 0.2:
        return np.asfortranarray(a)
    if r < 0.35 and a.ndim > 0:
        big = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if r < 0.45 and a.ndim > 1:
        return np.ascontiguousarray(a.T).T
    if r < 0.53 and a.ndim > 0:
        ax = int(rng.integers(a.ndim))
        return np.flip(np.flip(a, ax).copy(), ax)
    if r < 0.6:
        a = np.array(a)
        a.flags.writeable = False
        return a
    if r < 0.65:
        return a.astype(a.dtype.newbyteorder())     # as read from classic netCDF files
    return a


def values(rng, shp, kind=None):
    """Field of values of several kinds, ties and integers included."""
    kind = kind or rng.choice(['normal', 'int', 'zeros', 'large', 'const-ish', 'f32', 'quant'])
    if kind == 'normal':
        a = rng.normal(rng.uniform(-20, 20), rng.uniform(0.1, 5), shp)
    elif kind == 'int':
        a = rng.integers(-5, 8, shp)
    elif kind == 'zeros':
        a = np.where(rng.random(shp) < 0.5, 0.0, rng.gamma(2, 3, shp))
    elif kind == 'large':
        a = rng.normal(0, 1, shp) * 10.0 ** rng.integers(-6, 7)
    elif kind == 'const-ish':
        a = np.full(shp, float(rng.integers(-3, 4)))
        a = a + (rng.random(shp) < 0.2) * rng.normal(0, 1, shp)
    elif kind == 'f32':
        a = rng.normal(5, 2, shp).astype(np.float32)
    else:
        a = np.round(rng.normal(3, 2, shp), 1)
    return layout(rng, np.asarray(a))


def tol(*arrs):
    """Relative tolerance that rounding of the coarsest input dtype justifies."""
    return 2e-4 if any(a.dtype.newbyteorder('=') == np.float32 for a in arrs) else 1e-9


def gauss(rng, shp, trunc=False):
    mu = rng.normal(rng.uniform(-2, 8), rng.uniform(0.1, 4), shp)
    sg = rng.uniform(0.05, 4, shp)
    if trunc:
        mu = np.maximum(mu, -4 * sg)
    return {'mu': layout(rng, mu), 'sigma': layout(rng, sg)}


def gammaf(rng, shp, shift=None):
    um = rng.uniform(0.2, 15, shp)
    sg = um * rng.uniform(0.08, 2.0, shp)
    mode = rng.random() if shift is None else None
    if shift == 'neg' or (mode is not None and mode < 0.6):
        sh = -rng.uniform(0, 0.8, shp) * um
    else:
        sh = np.zeros(shp)
    return {'mu': um + sh, 'sigma': layout(rng, sg), 'shift': sh, 'unshifted_mu': um}


def hurdle(rng, shp):
    mu = rng.uniform(0.3, 12, shp)
    pop = rng.random(shp)
    r = rng.random(shp)
    pop = np.where(r < 0.1, 0.0, np.where(r > 0.9, 1.0, pop))
    return {'pop': pop, 'mu': layout(rng, mu), 'sigma': mu * rng.uniform(0.1, 1.1, shp)}


def ensemble(rng, shp, m=None, kind=None, first=None):
    """-> f, member axis argument (None: to be guessed), True if the members come first."""
    m = m or int(rng.integers(1, 12) if LARGE is None else rng.integers(12, 80) if LARGE[1] < 50000 else rng.integers(2, 30))
    if MANY:
        m = int(np.exp(rng.uniform(np.log(MANY[0]), np.log(MANY[1]))))
        if rng.random() < .4:           # about the sizes that small integers count to
            m = int(np.clip(int(rng.choice([128, 256, 512, 1024])) + int(rng.integers(-1, 3)), *MANY))
    first = bool(rng.random() < 0.5) if first is None else first
    fs = ((m,) + shp) if first else (shp + (m,))
    f = values(rng, fs, kind)
    return f, (0 if first else -1), first


def ens_axis_arg(rng, ax, nd_f):
    """Another spelling of the same member axis."""
    if ax == 0:
        return int(rng.choice([0, -nd_f]))
    return int(rng.choice([-1, nd_f - 1]))


def members_first(f, ax):
    return np.moveaxis(np.asarray(f), ax, 0)


def ks_uniform(u):
    """p-value of the two-sided Kolmogorov-Smirnov test against U(0,1)."""
    from scipy import stats
    return stats.kstest(np.asarray(u).ravel(), 'uniform').pvalue
