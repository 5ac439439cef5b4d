"""The truncated gamma distribution is a proper distribution."""
import numpy as np
import scipy.special as sc
from scipy import stats
from mon import core
from PyAnEn.dist_truncgamma import truncgamma_gen

RULE = 'distinct (array layout of the parameters, location and scale, bounded above or not, instance new, reused or frozen, function)'
REQUIRE = ['densities compared', 'densities at zero', 'exponential densities at zero', 'zero densities outside', 'densities integrated', 'probabilities compared', 'probabilities below', 'probabilities above',
           'quantiles inverted', 'quantiles at the ends', 'samples tested', 'scalar parameters', 'array parameters', 'finite upper bounds',
           'reused instances', 'frozen', 'zero lower bounds', 'location and scale', 'values at the bounds', 'monotone sequences', 'samples repeated', 'far quantiles', 'small shapes', 'far lower bounds', 'no upper bound']
ASSUMPTIONS = ['Parameters leave at least 1e-6 of the gamma probability between the bounds.']


class Par:
    """a, b, s, loc, scale, broadcasting to shape; each a scalar or an array."""
    def __init__(self, c):
        rng = c.rng
        nd = int(rng.integers(0, 4))
        self.shape = core.shape(rng, nd=nd, lo=1, hi=4) if nd else ()
        mode = rng.random()

        def piece(lo, hi):
            if mode < .25 or not self.shape:
                return float(rng.uniform(lo, hi))
            if mode < .55 or rng.random() < .5:
                return rng.uniform(lo, hi, self.shape)
            return rng.uniform(lo, hi, tuple(n if rng.random() < .5 else 1 for n in self.shape))

        s = piece(.3, 8) if rng.random() < .8 else piece(8, 60)
        if rng.random() < .25:          # exponential and Erlang shapes
            s = np.clip(np.round(s), 1, 4) if np.ndim(s) else float(np.clip(np.round(s), 1, 4))
            if np.ndim(s) and rng.random() < .5:
                s = np.ones_like(s)
        small = rng.random() < .12
        if small:
            s = np.clip(s * 10 ** -rng.uniform(1, 2.5), .003, .3)
            s = s if np.ndim(s) else float(s)
            c.count('small shapes')
        self.s = s
        far = not small and c.words.random() < .2 and np.min(s) >= 1
        if far:                         # hardly anything is left above the lower bound
            left = 10. ** -c.words.uniform(1, 6)
            a = sc.gammainccinv(s, left)
            c.count('far lower bounds')
        else:
            a = sc.gammaincinv(s, piece(0, .6))
        if rng.random() < .25 and not far:
            a = np.zeros_like(a) if np.ndim(a) else 0.0
            c.count('zero lower bounds')
        if small:                       # nearly all of the probability is close to zero, where the values of a shifted variable cannot show it
            a = piece(.05, .5)
        self.left = left if far else .3
        if rng.random() < .65 and not far:
            b = sc.gammaincinv(s, sc.gammainc(s, a) + (1 - sc.gammainc(s, a)) * piece(.05, .98))
            self.bounded = True
            c.count('finite upper bounds')
            if small:
                b = a + piece(.2, 5)
        else:
            b, self.bounded = (10000.0 if rng.random() < .5 else 1e8 if c.words.random() < .5 else np.inf), False
            c.count('no upper bound', np.isinf(b))
        self.a, self.b = (a if np.ndim(a) else float(a)), (b if np.ndim(b) else float(b))
        self.ls = {}
        if rng.random() < .7:
            self.ls['loc'] = piece(-5, 5)
        if rng.random() < .7:
            self.ls['scale'] = piece(.1, 5)
        if self.ls:
            c.count('location and scale')
        arrays = any(np.ndim(x) for x in (self.a, self.b, self.s, *self.ls.values()))
        c.count('array parameters' if arrays else 'scalar parameters')
        self.kind = ('array' if arrays else 'scalar', len(self.shape), self.bounded, tuple(sorted(self.ls)))

    @property
    def loc(self):
        return self.ls.get('loc', 0.)

    @property
    def scale(self):
        return self.ls.get('scale', 1.)

    def args(self):
        return dict(a=self.a, b=self.b, s=self.s, **self.ls)

    def P(self, z):
        return sc.gammainc(self.s, np.maximum(z, 0))

    def lo(self):
        return self.loc + self.scale * np.asarray(self.a)

    def hi(self):
        return self.loc + self.scale * np.asarray(self.b)

    def cdf(self, x):
        z = (x - self.loc) / self.scale
        pa, pb = self.P(self.a), self.P(self.b)
        r = (self.P(z) - pa) / (pb - pa)
        return np.where(z <= self.a, 0., np.where(z >= self.b, 1., r))

    def pdf(self, x):
        z = (x - self.loc) / self.scale
        pa, pb = self.P(self.a), self.P(self.b)
        with np.errstate(all='ignore'):
            r = stats.gamma.pdf(z, self.s) / (pb - pa) / self.scale
        return np.where((z < self.a) | (z > self.b), 0., r)

    def top(self):
        """A point above which nothing that matters lies."""
        return np.minimum(self.hi(), self.loc + self.scale * sc.gammaincinv(self.s, 1 - 1e-9))


def dist(c, par):
    """The distribution: a new instance, one used with other parameters before, or a frozen one."""
    r = c.rng.random()
    if r < .4:
        c.count('new instances')
        return 'new', lambda name, x: getattr(truncgamma_gen(), name)(x, **par.args())
    if r < .7:
        T = truncgamma_gen()
        for _ in range(int(c.rng.integers(1, 3))):
            o = Par(c)
            T.cdf(o.lo() + .1, **o.args())
        c.count('reused instances')
        return 'reused', lambda name, x: getattr(T, name)(x, **par.args())
    fz = c.call('freeze', lambda: truncgamma_gen()(**par.args()))
    c.count('frozen')
    return 'frozen', lambda name, x: getattr(fz, name)(x)


def edge(c, par, f, full):
    """Density on the lower bound itself, where rounding does not decide on which side of it the point is."""
    if par.ls.get('loc') is not None or np.any(np.asarray(par.a) != 0):
        return
    x = np.zeros(full)
    s = np.broadcast_to(par.s, full)
    with np.errstate(all='ignore'):
        want = np.where(s < 1, np.inf, np.where(s > 1, 0., 1 / (par.P(par.b) - par.P(par.a)) / par.scale))
    got = np.asarray(c.call('pdf', f, 'pdf', x))
    c.true(got.shape == full, 'densities of shape %s instead of %s' % (got.shape, full))
    ok = s >= 1
    c.close('density at a lower bound of zero', got[ok], want[ok], 1e-8, 1e-12)
    c.count('densities at zero', ok.sum())
    c.count('exponential densities at zero', (s == 1).sum())


def densities(c):
    par = Par(c)
    if c.index % 12 == 5:               # exponential from zero on
        par.a, par.s = 0., 1.
        par.ls.pop('loc', None)
    how, f = dist(c, par)
    full = np.broadcast_shapes(*(np.shape(v) for v in par.args().values()))
    for _ in range(4):
        x = par.lo() + (par.top() - par.lo()) * c.rng.uniform(.001, .999, full)
        c.close('density at %s' % core.brief(x), c.call('pdf', f, 'pdf', x), np.broadcast_to(par.pdf(x), full), 1e-8, 1e-12)
        c.count('densities compared')
        c.close('probability up to %s' % core.brief(x), c.call('cdf', f, 'cdf', x), np.broadcast_to(par.cdf(x), full), 1e-9, 1e-10)
        c.count('probabilities compared')
    w = c.rng.uniform(1e-6, 4, full) * par.scale
    below, above = par.lo() - w, (par.hi() if np.isfinite(par.b).all() else par.top() + 1e4 * par.scale) + w * (1 if par.bounded else 1e4)
    for x, p, name in ((below, 0., 'below'), (above, 1., 'above')):
        x = np.broadcast_to(x, full)
        c.close('density %s the bounds' % name, c.call('pdf', f, 'pdf', x), np.zeros(full), 0, 0)
        c.count('zero densities outside')
        c.close('probability %s the bounds' % name, c.call('cdf', f, 'cdf', x), np.full(full, p), 0, 1e-12)
        c.count('probabilities ' + name)
    edge(c, par, f, full)
    x = np.broadcast_to(par.lo(), full)
    c.close('probability at the lower bound', c.call('cdf', f, 'cdf', x), np.zeros(full), 0, 1e-9)
    x = np.broadcast_to(par.hi(), full)
    c.close('probability at the upper bound', c.call('cdf', f, 'cdf', x), np.ones(full), 0, 1e-9)
    c.count('values at the bounds')
    c.say(how=how, kind=str(par.kind), **par.args())
    c.sig('density', how, par.kind)


def monotone(c):
    par = Par(c)
    how, f = dist(c, par)
    full = np.broadcast_shapes(*(np.shape(v) for v in par.args().values()))
    n = 160
    lo, top = par.lo(), par.top()
    w = (top - lo)
    t = np.sort(np.append(c.rng.uniform(-.3, 1.3, n), np.linspace(0, 1, 41)))
    x = np.stack([np.broadcast_to(lo + w * q, full) for q in t])
    F = c.call('cdf', f, 'cdf', x)
    c.true(F.shape == x.shape, 'probabilities of shape %s instead of %s' % (F.shape, x.shape))
    c.true(not np.isnan(F).any() and F.min() >= -1e-12 and F.max() <= 1 + 1e-12, 'probabilities outside [0, 1]: %r to %r' % (np.nanmin(F), np.nanmax(F)))
    c.true((np.diff(F, axis=0) >= -1e-12).all(), 'the distribution function decreases')
    c.count('monotone sequences')
    # integral of the density between two points well inside: Gauss-Legendre
    u, wt = np.polynomial.legendre.leggauss(60)
    p, q = sorted(c.rng.uniform(.05, .95, 2))
    A, B = np.broadcast_to(lo + w * p, full), np.broadcast_to(lo + w * q, full)
    xs = np.stack([(A + B) / 2 + (B - A) / 2 * k for k in u])
    d = c.call('pdf', f, 'pdf', xs)
    g = sum(d[i] * wt[i] for i in range(len(u))) * (B - A) / 2
    c.close('density integrated between two points', g, c.call('cdf', f, 'cdf', B) - c.call('cdf', f, 'cdf', A), 1e-5, 1e-7)
    c.count('densities integrated')
    c.sig('monotone', how, par.kind)


def quantiles(c):
    par = Par(c)
    how, f = dist(c, par)
    full = np.broadcast_shapes(*(np.shape(v) for v in par.args().values()))
    for _ in range(4):
        q = c.rng.uniform(.001, .999, full)
        x = c.call('ppf', f, 'ppf', q)
        c.true(np.shape(x) == full, 'quantiles of shape %s instead of %s' % (np.shape(x), full))
        c.true(np.all(x >= par.lo() - 1e-9) and np.all(x <= par.hi() + 1e-9 * np.abs(par.hi())), 'a quantile lies outside the bounds')
        c.close('exact probability of a quantile', par.cdf(x), q, 0, 1e-7)
        c.close('probability of a quantile', c.call('cdf', f, 'cdf', x), q, 0, 1e-7)
        c.count('quantiles inverted')
    if not par.bounded:
        # far quantiles: up to the rounding of the probability itself
        e = np.maximum(10. ** c.rng.uniform(-13, -4, full), 1e-13 if par.left == .3 else 1e-12 / par.left)
        q = 1 - e
        x = c.call('ppf', f, 'ppf', q)
        t = 1e-14 / (1 - q) / par.left           # relative to what is left above, rounding of q
        lo, hi = (np.broadcast_to(par.loc + par.scale * sc.gammainccinv(par.s, sc.gammaincc(par.s, par.a) * (1 - q) * k), full) for k in (1 + .01 + t, 1 / (1 + .01 + t)))
        c.true(np.all(x >= lo - 1e-9 * np.abs(lo)) and np.all(x <= hi + 1e-9 * np.abs(hi)), 'far quantiles of %s: %s instead of %s to %s' % (core.brief(e), core.brief(x), core.brief(lo), core.brief(hi)))
        c.count('far quantiles')
    c.close('quantile 0', c.call('ppf', f, 'ppf', np.zeros(full)), np.broadcast_to(par.lo(), full), 1e-9, 1e-9)
    if par.bounded:
        c.close('quantile 1', c.call('ppf', f, 'ppf', np.ones(full)), np.broadcast_to(par.hi(), full), 1e-9, 1e-9)
    c.count('quantiles at the ends')
    c.sig('quantile', how, par.kind)


def samples(c):
    par = Par(c)
    full = np.broadcast_shapes(*(np.shape(v) for v in par.args().values()))
    cells = int(np.prod(full)) if full else 1
    n = int(np.ceil(1500 / cells))
    size = [n] + list(full)
    if c.rng.random() < .5:
        x = c.call('rvs', lambda: truncgamma_gen()(**par.args()).rvs(size))
    else:
        x = c.call('rvs', lambda: truncgamma_gen().rvs(size=size, **par.args()))
    c.true(np.shape(x) == tuple(size), 'samples of shape %s instead of %s' % (np.shape(x), size))
    c.true(np.all(x >= par.lo() - 1e-9) and np.all(x <= par.hi() + 1e-9 * np.abs(par.hi())), 'a sample lies outside the bounds')
    p = core.ks_uniform(par.cdf(x))
    c.true(p > 1e-9, 'samples do not follow the distribution: p=%.3g' % p)
    c.true(np.unique(np.ravel(x)).size > .99 * np.size(x), 'samples are repeated')
    c.count('samples tested', np.size(x))
    seed = int(c.rng.integers(2 ** 31 - 2))
    kinds = [lambda k: k, lambda k: np.random.RandomState(k), lambda k: np.random.default_rng(k)]
    state = kinds[c.index % 3]
    if c.rng.random() < .5:
        draw = lambda k: truncgamma_gen()(**par.args()).rvs(size, random_state=state(k))
    else:
        draw = lambda k: truncgamma_gen().rvs(size=size, random_state=state(k), **par.args())
    a, b, d = (np.asarray(c.call('rvs with a random state', draw, k)) for k in (seed, seed, seed + 1))
    c.true(np.array_equal(a, b), 'samples differ under the same random state')
    c.true(not np.array_equal(a, d), 'samples are the same under different random states')
    if cells == 1:
        # one sample, without a size
        for one in (lambda k: truncgamma_gen()(**par.args()).rvs(random_state=state(k)), lambda k: truncgamma_gen().rvs(random_state=state(k), **par.args())):
            a, b, d = (np.asarray(c.call('rvs of one sample', one, k)) for k in (seed, seed, seed + 1))
            c.true(np.array_equal(a, b), 'one sample differs under the same random state')
            c.true(not np.array_equal(a, d), 'one sample is the same under different random states')
            c.count('single samples')
    c.count('samples repeated')
    c.sig('samples', par.kind)


WORKLOADS = [('densities', densities, 250, 6000), ('monotone', monotone, 150, 3000), ('quantiles', quantiles, 150, 3000), ('samples', samples, 100, 2000)]
_L = core.larger(WORKLOADS, ['densities', 'monotone', 'quantiles', 'samples'], 8, 120)
WORKLOADS += _L
