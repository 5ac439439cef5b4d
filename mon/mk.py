"""Verifiers of every type over generated data, with an independent account of what they forecast."""
import collections

import numpy as np
import scipy.special as sc
import PyAnEn

from . import core

KINDS = ['determ', 'ens', 'gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle']
PROB = ['ens', 'gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle']
DIST = ['gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle']

CLS = {'determ': PyAnEn.VerifyDeterm, 'ens': PyAnEn.VerifyEnsemble,
       'gauss': PyAnEn.VerifyProbGaussian, 'tgauss': PyAnEn.VerifyProbGaussian,
       'gamma': PyAnEn.VerifyProbGamma, 'tgamma': PyAnEn.VerifyProbGamma,
       'hurdle': PyAnEn.VerifyProbGammaHurdle}


def watched(base, before, name=None, **attrs):
    """A verifier class that calls before(self, threshold) whenever a probability is evaluated."""
    own = '_cdf' if hasattr(base, '_cdf') else 'cdf'          # the method subclasses define, else the public one

    def probability(self, over=None, below=None, **kw):
        before(self, below if below is not None else over)
        return getattr(base, own)(self, over=over, below=below, **kw)
    return type(name or 'Watched' + base.__name__, (base,), dict(attrs, **{own: probability}))


class Spec:
    """One data set: kind, forecast f, observation o, constructor options."""
    def __init__(self, kind, f, o, ax=None, **kw):
        self.kind, self.f, self.o, self.ax, self.kw = kind, f, o, ax, kw

    def build(self, **more):
        kw = dict(self.kw)
        kw.update(more)
        if self.kind == 'ens' and self.ax is not None:
            kw.setdefault('ensemble_axis', self.ax)
        if self.kind in ('tgauss', 'tgamma'):
            kw.setdefault('truncated', True)
        return CLS[self.kind](self.container(), self.o, **kw)

    def container(self):
        """Parameters in a dictionary, now and then another dictionary-like object or one with more entries."""
        if not isinstance(self.f, dict):
            return self.f
        style = (self.o.size + self.o.ndim) % 7
        if style == 1:
            return collections.OrderedDict(reversed(list(self.f.items())))
        if style == 2:
            return collections.UserDict(self.f)
        if style == 3:
            return dict(self.f, extra=np.zeros(self.o.shape))
        return self.f

    def slice(self, idx):
        """The data of one kept cell; idx indexes the observations."""
        o = self.o[idx]
        if self.kind == 'determ':
            f = self.f[idx]
        elif self.kind == 'ens':
            f = self.f[(slice(None),) + idx] if self.ax % self.f.ndim == 0 else self.f[idx + (slice(None),)]
        else:
            f = {k: v[idx] for k, v in self.f.items()}
        ax = self.ax
        if self.kind == 'ens':
            ax = 0 if self.ax % self.f.ndim == 0 else -1
        return Spec(self.kind, f, o, ax, **self.kw)

    def copy(self):
        f = {k: np.array(v) for k, v in self.f.items()} if isinstance(self.f, dict) else np.array(self.f)
        return Spec(self.kind, f, np.array(self.o), self.ax, **self.kw)

    def arrays(self):
        return ([('f[%s]' % k, v) for k, v in self.f.items()] if isinstance(self.f, dict) else [('f', self.f)]) + \
            [('o', self.o)]

    def extra(self):
        """The same data with a leading axis of length one."""
        o = self.o[None]
        if self.kind == 'ens':
            M = self.members()[:, None]
            first = self.ax % self.f.ndim == 0
            return Spec('ens', M if first else np.moveaxis(M, 0, -1), o, 0 if first else -1, **self.kw)
        f = {k: v[None] for k, v in self.f.items()} if isinstance(self.f, dict) else self.f[None]
        return Spec(self.kind, f, o, **self.kw)

    def members(self):
        return core.members_first(self.f, self.ax)

    def determ(self):
        """What the forecast says, as one number per cell."""
        if self.kind == 'determ':
            return np.asarray(self.f, float)
        if self.kind == 'ens':
            return self.members().astype(float).mean(axis=0)
        if self.kind == 'hurdle':
            return self.f['pop'] * self.f['mu']
        return np.asarray(self.f['mu'])

    def var(self):
        if self.kind == 'ens':
            m = self.members().astype(float)
            return ((m - m.mean(axis=0)) ** 2).mean(axis=0)
        if self.kind == 'hurdle':
            p, mu, sg = self.f['pop'], self.f['mu'], self.f['sigma']
            return p * (sg ** 2 + mu ** 2) - (p * mu) ** 2
        return self.f['sigma'] ** 2

    def cdf(self, x):
        """Exact P(X <= x)."""
        x = np.broadcast_to(np.asarray(x, float), self.o.shape)
        k, f = self.kind, self.f
        if k == 'ens':
            m = self.members()
            return (m <= x[None]).sum(axis=0) / m.shape[0]
        if k == 'gauss':
            return sc.ndtr((x - f['mu']) / f['sigma'])
        if k == 'tgauss':
            z, l = (x - f['mu']) / f['sigma'], -f['mu'] / f['sigma']
            return np.where(x <= 0, 0., 1 - np.exp(sc.log_ndtr(-z) - sc.log_ndtr(-l)))
        if k in ('gamma', 'tgamma'):
            s, th = (f['unshifted_mu'] / f['sigma']) ** 2, f['sigma'] ** 2 / f['unshifted_mu']
            z = np.maximum((x - f['shift']) / th, 0)
            if k == 'gamma':
                return sc.gammainc(s, z)
            a = -f['shift'] / th
            return np.where(x <= 0, 0., 1 - sc.gammaincc(s, z) / sc.gammaincc(s, a))
        s, th = (f['mu'] / f['sigma']) ** 2, f['sigma'] ** 2 / f['mu']
        return np.where(x < 0, 0., 1 - f['pop'] + f['pop'] * sc.gammainc(s, np.maximum(x, 0) / th))

    def bin_width(self):
        a, b = self.kw['integration_range']
        return (b - a) / (self.kw['n_approx_bins'] - 1)

    def prob(self, over=None, below=None):
        return self.cdf(below) if over is None else 1 - self.cdf(over)

    def draw(self, rng):
        """Observations drawn from the forecast distribution itself."""
        k, f, u = self.kind, self.f, rng.uniform(1e-12, 1 - 1e-12, self.o.shape)
        if k == 'gauss':
            return f['mu'] + f['sigma'] * sc.ndtri(u)
        if k == 'tgauss':
            l = -f['mu'] / f['sigma']
            return f['mu'] - f['sigma'] * sc.ndtri(u * sc.ndtr(-l))
        if k in ('gamma', 'tgamma'):
            s, th = (f['unshifted_mu'] / f['sigma']) ** 2, f['sigma'] ** 2 / f['unshifted_mu']
            top = sc.gammaincc(s, -f['shift'] / th) if k == 'tgamma' else 1.
            return f['shift'] + th * sc.gammainccinv(s, u * top)
        s, th = (f['mu'] / f['sigma']) ** 2, f['sigma'] ** 2 / f['mu']
        return np.where(rng.random(self.o.shape) < f['pop'], th * sc.gammaincinv(s, u), 0.)


def make(rng, kind, shp, distinct=False, nan=0.0):
    """Data of one kind and shape. distinct: continuous values without ties."""
    ax = None
    vk = 'normal' if distinct else None
    if kind == 'determ':
        f = core.values(rng, shp, vk)
        o = core.values(rng, shp, vk)
    elif kind == 'ens':
        f, a, _ = core.ensemble(rng, shp, kind=vk, m=int(rng.integers(2, 12)) if distinct else None)
        ax = core.ens_axis_arg(rng, a, f.ndim)
        o = core.values(rng, shp, vk)
    elif kind in ('gauss', 'tgauss'):
        f = core.gauss(rng, shp, kind == 'tgauss')
        o = rng.normal(3, 4, shp)
        if kind == 'tgauss' and not distinct:
            o = np.maximum(o, 0)
    elif kind in ('gamma', 'tgamma'):
        f = core.gammaf(rng, shp, 'neg' if kind == 'tgamma' else None)
        o = rng.gamma(1.5, 4, shp)
        if not distinct:
            o = np.where(rng.random(shp) < 0.2, 0., o)
    else:
        f = core.hurdle(rng, shp)
        o = rng.gamma(1.5, 4, shp)
        if not distinct:
            o = np.where(rng.random(shp) < 0.3, 0., o)
    kw = {}
    if kind == 'hurdle':
        # the whole distribution lies within the range
        s, th = (f['mu'] / f['sigma']) ** 2, f['sigma'] ** 2 / f['mu']
        kw = {'integration_range': (-2.0, float(np.ceil((th * sc.gammainccinv(s, 1e-12)).max()))), 'n_approx_bins': 120}
    return Spec(kind, f, core.layout(rng, o), ax, **kw)


def integral(rng, spec, p=.2):
    """Now and then, distribution parameters of an integer type."""
    if spec.kind not in DIST or rng.random() >= p:
        return spec
    f = {k: np.asarray(v) for k, v in spec.f.items()}
    if 'shift' in f:
        um = np.maximum(np.round(f['unshifted_mu']), 1).astype(int)
        sh = np.clip(np.round(f['shift']), -um // 2, 3).astype(int)
        f = {'mu': um + sh, 'sigma': np.maximum(np.round(f['sigma']), 1).astype(int), 'shift': sh, 'unshifted_mu': um}
    else:
        lo = 1 if 'pop' in f else None
        f = dict(f, mu=np.clip(np.round(f['mu']), lo, None).astype(int), sigma=np.maximum(np.round(f['sigma']), 1).astype(int))
    return Spec(spec.kind, f, spec.o, spec.ax, **spec.kw)


def threshold(rng, spec):
    """A threshold near the data, often equal to one of its values."""
    o = spec.o[np.isfinite(spec.o)]
    r = rng.random()
    if r < 0.35 and o.size:
        t = float(rng.choice(o.ravel()))
    elif r < 0.5 and spec.kind == 'ens':
        v = spec.f[np.isfinite(spec.f)].ravel()
        t = float(rng.choice(v)) if v.size else 1.0
    elif r < 0.6:
        return rng.choice([int, np.int64, np.int32])(rng.integers(-2, 8))
    elif r < 0.7:
        t = 0.0
    else:
        lo, hi = (float(o.min()), float(o.max())) if o.size else (0., 1.)
        t = float(rng.uniform(lo - 1, hi + 1))
    return t


def event(rng, t):
    return {'over': t} if rng.random() < 0.5 else {'below': t}


def observed(o, over=None, below=None):
    # in double precision, like the forecasts
    o = np.asarray(o, float)
    return np.asarray(o <= np.asarray(below, float) if over is None else o > np.asarray(over, float), float)


def pool(c, spec, members=None, nsamp=None, rand=True):
    """Every supported metric call of a verifier: [(name, kwargs)]. nsamp: samples per kept cell, None if all."""
    t = float(threshold(c.rng, spec))
    out = [(n, {}) for n in ('error', 'sq_error', 'ab_error', 'rmse', 'f_determ', 'corr')]
    for k in ('over', 'below'):
        out.append(('iou_determ', {k: t}))
    if spec.kind == 'determ':
        return out
    for k, other in (('over', 'below'), ('below', 'over')):
        out += [(n, {k: t}) for n in ('cdf', 'brier', 'sharpness', 'brier_decomp', 'roc')]
        out.append(('iou_prob', {k: (t, .45), other: (None, None)}))
        if nsamp is None:
            out.append(('reliability', {k: t, 'nbins': int(c.rng.integers(2, 9))}))
    n = spec.o.size if nsamp is None else nsamp
    out += [('variance', {}), ('binned_spread_skill', {'nbins': int(c.rng.integers(1, min(n, 4) + 1))})]
    if spec.kind != 'tgamma':
        out.append(('crps', {}))
    if spec.kind == 'ens':
        out += [('spread', {})]
        if rand:
            out.append(('rank_hist', {}))
    else:
        if rand:
            out += [('pit', {}), ('rank_hist', {})]
        if rand and members and spec.kind != 'hurdle':
            out += [('prob_to_ens', {}), ('spread', {})]
    return out
