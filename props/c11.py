"""Reliability diagram partitions the forecasts."""
import numpy as np
from mon import core, mk, units
from PyAnEn.utils_verify import reliability_diagram

RULE = 'distinct (source, shape, bins, event, resampling) with counts, means and frequencies of every bin compared'
REQUIRE = ['empty bins', 'probability one', 'probability zero', 'verifier', 'util function', 'bootstrapped', 'bins compared',
           'only one class', 'per-cell', 'hundreds of bins', 'bootstrapped kept cells', 'verifier with kept cells',
           'cells with different numbers of bins']


def ref(p, e, nbins):
    b = np.minimum((p * nbins).astype(int), nbins - 1)
    ids = sorted(set(b.tolist()))
    pred = np.array([p[b == k].mean() for k in ids])
    true = np.array([e[b == k].mean() for k in ids])
    cnt = np.array([(b == k).sum() for k in ids])
    return np.array(ids), pred, true, cnt


def on_edge(p, nbins):
    k = p * nbins
    near = np.abs(k - np.round(k)) < 1e-5
    return near & (np.round(k) > 0) & (np.round(k) < nbins)


def values_of(s):
    return np.asarray(s.to_numpy() if hasattr(s, 'to_numpy') else s)


def judge(c, got, p, e, nbins, boot=None):
    pred, true, pc, tc = got
    p, e = p.ravel(), np.asarray(e, float).ravel()
    ids, wp, wt, cnt = ref(p, e, nbins)
    pred, true = np.asarray(pred), np.asarray(true)
    c.count('empty bins', len(ids) < nbins)
    c.count('probability one', (p == 1).any())
    c.count('probability zero', (p == 0).any())
    pcv, tcv = values_of(pc), values_of(tc)
    c.true(pcv.sum() == p.size, 'counts add up to %s instead of %d' % (pcv.sum(), p.size))
    c.close('counts', pcv, cnt, 0, 0)
    wanted_tc = [int(x) for x in ((e == 0).sum(), (e == 1).sum()) if x]
    c.count('only one class', len(wanted_tc) == 1)
    c.close('event counts', tcv, np.array(wanted_tc), 0, 0)
    if hasattr(pc, 'index'):
        c.close('bin labels', np.asarray(pc.index), ids, 0, 0)
        c.close('event labels', np.asarray(tc.index), np.array(sorted(set(e.astype(int).tolist()))), 0, 0)
    if boot is None:
        c.close('mean probability of the bins', pred, wp, 1e-9, 1e-10)
        c.close('event frequency of the bins', true, wt, 1e-9, 1e-10)
        c.true(np.all(np.diff(pred) > 0), 'bins are not in increasing order')
        c.true(np.all((pred >= ids / nbins - 1e-7) & (pred <= (ids + 1) / nbins + 1e-7)), 'mean outside its bin')
    else:
        c.true(pred.shape == (len(ids), 3) and true.shape == (len(ids), 3), 'bootstrapped shape %s %s' % (pred.shape, true.shape))
        b = np.minimum((p * nbins).astype(int), nbins - 1)
        for i, k in enumerate(ids):
            for nm, a, x in (('probability', pred, p[b == k]), ('frequency', true, e[b == k])):
                lo, mid, hi = a[i]
                c.true(lo <= mid + 1e-12 and mid <= hi + 1e-12 or x.std() > 0 and lo <= hi, 'bounds not ordered: %s' % a[i])
                c.true(lo >= x.min() - 1e-9 and hi <= x.max() + 1e-9, '%s interval %s outside the range of bin %d' % (nm, a[i], k))
                sd = x.std() / np.sqrt(boot[0] * boot[1])
                c.true(abs(mid - x.mean()) <= 8 * sd + 1e-9, '%s of bin %d: %r instead of %r' % (nm, k, mid, x.mean()))
    c.count('bins compared', len(ids))


def probs(c, shp, nbins):
    p = c.rng.beta(*[(0.4, 0.4), (1, 1), (5, 2), (0.3, 3)][int(c.rng.integers(4))], shp)
    q = c.rng.random(shp)
    p = np.where(q < 0.07, 0., np.where(q > 0.93, 1., p))
    if c.rng.random() < .2:
        m = int(c.rng.choice([7, 11, 13]))
        p = np.round(p * m) / m
    p = np.where(on_edge(p, nbins), p + 0.3 / nbins, p)
    return p


def util(c):
    shp = core.shape(c.rng, int(c.rng.integers(1, 4)), 1, 9, 250)
    nbins = int(c.rng.integers(1, 25))
    if c.index % 12 in (4, 7):
        shp, nbins = core.shape(c.rng, int(c.rng.integers(1, 3)), 20, 90, 2500), int(c.rng.integers(200, 700))
        c.count('hundreds of bins')
    p = probs(c, shp, nbins)
    r = c.rng.random()
    e = c.rng.random(shp) < (p if r < .7 else (0.5 if r < .85 else (0 if r < .93 else 2)))
    boot = None
    kw = {}
    if c.index % 4 == 0:
        boot = (int(c.rng.integers(5, 60)), 60)
        kw = {'boot_samples': boot[0], 'repeats': boot[1], 'confidence': 0.9}
        c.count('bootstrapped')
    c.say(shape=str(shp), nbins=nbins, f=p, boot=str(boot))
    c.sig('util', shp, nbins, boot is not None)
    got = c.call('reliability_diagram', reliability_diagram, core.layout(c.rng, p), core.layout(c.rng, e), nbins, None, **kw)
    c.count('util function')
    judge(c, got, p, e, nbins, boot)


def verifier(c):
    kind = mk.PROB[c.index % 6]
    shp = core.shape(c.rng, int(c.rng.integers(1, 4)), 2, 8, 200)
    if kind == 'ens':
        m = int(c.rng.choice([7, 11, 13]))
        f, a, _ = core.ensemble(c.rng, shp, m, 'normal')
        spec = mk.Spec('ens', f, c.rng.normal(f.mean(), f.std() + .1, shp), a)
    else:
        spec = mk.make(c.rng, kind, shp)
    nbins = int(c.rng.choice([2, 3, 5, 6, 8, 9, 10, 15]))
    t = mk.threshold(c.rng, spec)
    ev = mk.event(c.rng, t)
    p = spec.prob(**ev)
    if on_edge(p, nbins).any():
        return
    kw = {}
    boot = None
    if c.index % 5 == 0:
        c.env(boot_repeats=50)
        boot = (int(c.rng.integers(5, 60)), 50)
        kw['boot_samples'] = boot[0]
        c.count('bootstrapped')
    v = c.call('construct', spec.build, **kw)
    c.say(kind=kind, shape=str(shp), nbins=nbins, event=str(ev))
    c.sig(kind, shp, nbins, list(ev)[0], boot is not None)
    call = {} if nbins == 15 and c.rng.random() < .5 else {'nbins': nbins}
    got = c.call('reliability', v.reliability, **call, **ev)
    c.count('verifier')
    judge(c, got, p, mk.observed(spec.o, **ev), nbins, boot)


def kept(c):
    """Averaging over some axes: one diagram per kept cell when all cells fill as many bins and classes, an error otherwise."""
    nbins = int(c.rng.integers(2, 5))
    na = int(c.rng.integers(1, 3))
    ashape = (60,) if na == 1 else (12, 5)
    kshape = core.shape(c.rng, int(c.rng.integers(1, 3)), 2, 3)
    ragged = c.index % 8 == 7
    while True:
        p = c.rng.random(ashape + kshape)
        if c.index % 4 == 1:
            # one bin is empty in each cell, not the same one
            for i in np.ndindex(*kshape):
                x = p[(Ellipsis,) + i]
                b = int(c.rng.integers(nbins))
                x[np.minimum((x * nbins).astype(int), nbins - 1) == b] = ((b + 1) % nbins + .5) / nbins
        p = np.where(on_edge(p, nbins), p + 0.3 / nbins, p)
        if ragged:
            x = p[(Ellipsis,) + (0,) * len(kshape)]
            x[...] = x / nbins * .9
        e = c.rng.random(p.shape) < p
        cells = [(Ellipsis,) + i for i in np.ndindex(*kshape)]
        sizes = {len(ref(p[i].ravel(), e[i].ravel(), nbins)[0]) for i in cells}
        if (len(sizes) == 1) != ragged and all(0 < e[i].sum() < e[i].size for i in cells):
            break
    nd = p.ndim
    to = sorted(int(x) for x in c.rng.permutation(nd)[:na])
    P, E = np.moveaxis(p, range(na), to), np.moveaxis(e, range(na), to)
    ax = tuple(x - nd if c.rng.random() < .5 else x for x in c.rng.permutation(to).tolist())
    boot = (int(c.rng.integers(5, 60)), 40) if c.index % 3 == 1 else None
    kw = {} if boot is None else {'boot_samples': boot[0], 'repeats': boot[1], 'confidence': .9}
    c.say(shape=str(P.shape), axes=str(ax), nbins=nbins, boot=str(boot), ragged=ragged)
    c.sig('kept', kshape, nbins, ax, boot is not None, ragged)
    if ragged:
        # refused today; if there is a result, it has to be right
        c.count('cells with different numbers of bins')
        try:
            got = reliability_diagram(P, E, nbins, ax, **kw)
        except Exception:
            return
        for i in cells:
            one = [np.asarray(g)[i[1:]] for g in got]
            judge(c, [np.asarray(g, float)[~np.isnan(np.asarray(g, float)).reshape(len(g), -1).any(1)] for g in one], p[i], e[i], nbins, boot)
        return
    if c.index % 2:
        got = c.call('reliability_diagram', reliability_diagram, P, E, nbins, ax, **kw)
    else:
        # members below and above the threshold in the given shares, which are rounded to those of the ensemble
        m = 61
        q = np.where(on_edge(np.round(P * m) / m, nbins), (np.round(P * m) + 1) / m, np.round(P * m) / m)
        ids0 = [len(ref(np.moveaxis(q, to, range(na))[i].ravel(), e[i].ravel(), nbins)[0]) for i in cells]
        if len(set(ids0)) > 1 or on_edge(q, nbins).any():
            return
        k = np.round(q * m).astype(int)
        f = (np.arange(m).reshape((-1,) + (1,) * nd) >= k[None]).astype(float)
        c.env(boot_repeats=40, boot_confidence=.9)
        v = c.call('construct', mk.CLS['ens'], np.moveaxis(f, 0, -1), np.where(E, 0., 1.), -1, avg_axis=ax, boot_samples=boot and boot[0])
        got = c.call('reliability', v.reliability, nbins=nbins, below=.5)
        p = np.moveaxis(q, to, range(na))
        c.count('verifier with kept cells')
    for g, last in zip(got, (nbins, nbins, nbins, 2)):
        g = np.asarray(g)
        c.true(g.shape[:len(kshape)] == kshape, 'diagrams of shape %s for kept cells %s' % (g.shape, kshape))
    for i in cells:
        judge(c, [np.asarray(g)[i[1:]] for g in got], p[i], e[i], nbins, boot)
        c.count('per-cell')
        c.count('bootstrapped kept cells', boot is not None)


WORKLOADS = [('util', util, 120, 3000), ('verifier', verifier, 90, 2000), ('kept', kept, 32, 600)]
WORKLOADS += [units.workload('C11'), units.types_workload('C11')]
_L = core.larger(WORKLOADS, ['util', 'verifier', 'units'], 8, 120)
_L += core.larger(WORKLOADS, ['util', 'verifier'], 3, 40, 50000, 250000)
WORKLOADS += _L
