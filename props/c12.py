"""ROC area is the probability of ranking events above non-events."""
import numpy as np
from mon import core, mk, units

RULE = 'distinct (verifier type, shape, event, ties among probabilities) with area and every curve point checked'
REQUIRE = ['curve points', 'tied probabilities', 'over', 'below', 'perfect', 'arrays', 'transformations', 'monotone', 'large samples']


def auc_ref(p, e):
    if p.size > 3000:       # the same number from one pass over the distinct probabilities
        u, i = np.unique(p, return_inverse=True)
        a, b = np.bincount(i[e == 1], minlength=u.size).astype(float), np.bincount(i[e == 0], minlength=u.size).astype(float)
        return float((a * (np.cumsum(b) - b / 2)).sum() / (a.sum() * b.sum()))
    a, b = p[e == 1], p[e == 0]
    return ((a[:, None] > b[None, :]).sum() + 0.5 * (a[:, None] == b[None, :]).sum()) / (a.size * b.size)


def judge(c, got, p, e):
    fpr, tpr, auc = got
    fpr, tpr = np.asarray(fpr), np.asarray(tpr)
    c.true(fpr.shape == tpr.shape and fpr.ndim == 1, 'curve shapes %s %s' % (fpr.shape, tpr.shape))
    c.close('start of the curve', [fpr[0], tpr[0]], [0, 0], 0, 1e-15)
    c.close('end of the curve', [fpr[-1], tpr[-1]], [1, 1], 0, 1e-15)
    c.true(np.all(np.diff(fpr) >= 0) and np.all(np.diff(tpr) >= 0), 'rates decrease along the curve')
    c.count('monotone')
    pts = {(0, 0)}
    P, N = (e == 1).sum(), (e == 0).sum()
    u, i = np.unique(p, return_inverse=True)
    above = lambda k: np.cumsum(np.bincount(i[e == k], minlength=u.size)[::-1])
    for x, y in zip(above(0), above(1)):
        pts.add((int(x), int(y)))
    for x, y in zip(fpr, tpr):
        k = (int(round(float(x) * N)), int(round(float(y) * P)))
        c.true(k in pts and abs(k[0] / N - x) < 1e-9 and abs(k[1] / P - y) < 1e-9, 'point (%r, %r) belongs to no threshold' % (x, y))
        c.count('curve points')
    c.close('ROC area', auc, auc_ref(p, e), 1e-9, 1e-10)
    c.close('area under the returned curve', np.sum(np.diff(fpr) * (tpr[1:] + tpr[:-1]) / 2), auc, 1e-9, 1e-10)


def roc(c):
    kind = mk.PROB[c.index % 6]
    shp = core.shape(c.rng, int(c.rng.integers(1, 4)), 2, 8, 200)
    spec = mk.make(c.rng, kind, shp)
    if kind == 'ens':
        f, a, _ = core.ensemble(c.rng, shp, int(c.rng.integers(2, 20)), 'normal')
        o = c.rng.normal(f.mean(), f.std() + .1, shp)
        spec = mk.Spec('ens', f, o, a)
    t = mk.threshold(c.rng, spec)
    ev = mk.event(c.rng, t)
    e = mk.observed(spec.o, **ev).ravel()
    if e.sum() == 0 or e.sum() == e.size:
        return
    p = spec.prob(**ev).ravel()
    v = c.call('construct', spec.build, avg_axis=core.axes(c.rng, len(shp)))
    # the reported probabilities themselves decide the ties
    pr = np.asarray(c.call('cdf', v.cdf, **ev)).ravel()
    c.close('probabilities', pr, p, 1e-8, 1e-8)
    c.count(list(ev)[0])
    c.count('tied probabilities', len(np.unique(pr)) < pr.size)
    c.say(kind=kind, shape=str(shp), event=str(ev))
    c.sig(kind, shp, list(ev)[0], len(np.unique(pr)) < pr.size)
    judge(c, c.call('roc', v.roc, **ev), pr, e)


def arrays(c):
    """The curve of two arrays, each with its own memory layout."""
    from PyAnEn.utils_verify import calculate_roc
    shp = core.shape(c.rng, int(c.rng.integers(1, 4)), 2, 8, 200)
    p = c.rng.random(shp)
    if c.rng.random() < .5:
        p = np.round(p, 1 if np.size(p) < 1000 else int(c.words.integers(1, 4)))
    e = c.rng.random(shp) < p
    if not 0 < e.sum() < e.size:
        return
    e_ = e if c.rng.random() < .5 else e.astype(float)
    judge(c, c.call('calculate_roc', calculate_roc, core.layout(c.rng, p), core.layout(c.rng, e_)), p.ravel(), e.ravel().astype(float))
    c.count('arrays')
    c.count('large samples', p.size > 20000)
    c.sig('arrays', shp, e_.dtype)


def perfect(c):
    shp = core.shape(c.rng, 2, 2, 8)
    o = c.rng.normal(0, 1, shp)
    t = float(np.median(o))
    if not ((o > t).any() and (o <= t).any()):
        return
    f = {'mu': o * 1.0, 'sigma': np.full(shp, float(c.rng.uniform(0.05, 5)))}
    v = c.call('construct', mk.CLS['gauss'], f, o)
    for k in ('over', 'below'):
        r = c.call('roc', v.roc, **{k: t})
        c.close('area of a separating forecast', r[2], 1.0, 0, 1e-12)
    c.count('perfect')
    # strictly increasing transformation of the probabilities: wider distributions with equal sigma
    s2 = mk.Spec('gauss', {'mu': c.rng.normal(0, 1, shp), 'sigma': np.full(shp, 1.0)}, o)
    s3 = mk.Spec('gauss', {'mu': t + 2 * (s2.f['mu'] - t), 'sigma': np.full(shp, 4.0)}, o)
    a, b = c.call('roc', s2.build().roc, over=t), c.call('roc', s3.build().roc, over=t)
    c.close('area after an increasing transformation', b[2], a[2], 1e-12, 1e-12)
    c.count('transformations')
    c.sig('perfect', shp)


WORKLOADS = [('arrays', arrays, 40, 600), ('roc', roc, 150, 3000), ('perfect', perfect, 20, 300)]
WORKLOADS += [units.workload('C12'), units.types_workload('C12')]
_L = core.larger(WORKLOADS, ['roc', 'units'], 8, 120)
_L += core.larger(WORKLOADS, ['arrays', 'roc'], 3, 40, 20000, 250000)
WORKLOADS += _L
