"""Spread, variance and binned spread-skill conserve the sample."""
import numpy as np
from mon import core, mk, units
from PyAnEn.utils_ss import binned_spread_skill

RULE = 'distinct (source, shape, averaging axes, bins, member axis) with every bin of every kept cell compared'
REQUIRE = ['spread', 'variance', 'sampled spread', 'binned cells', 'uneven bins', 'tied variances', 'nearly equal variances', 'verifier', 'util function', 'many members', 'mixed types', 'many bins']


def ref(v, e, nbins):
    """Sorted by variance, contiguous bins whose sizes differ by at most one. -> None where ties leave a choice"""
    o = np.argsort(v, kind='stable')
    v, e = v[o], e[o]
    return v, e


def judge(c, got, var, sq, ax, nbins):
    spread, rmse = [np.asarray(x) for x in got]
    kshape, vr = core.rows(var, ax)
    _, er = core.rows(sq, ax)
    for x in (spread, rmse):
        c.true(x.shape == kshape + (nbins,), 'shape %s instead of %s' % (x.shape, kshape + (nbins,)))
    for i, idx in enumerate(np.ndindex(*kshape)):
        v, e = vr[i], er[i]
        n = v.size
        o = np.argsort(v, kind='stable')
        vs, es = v[o], e[o]
        s2, r2 = spread[idx] ** 2, rmse[idx] ** 2
        sc = max(vs.max(), 1e-300)
        c.true(np.all(np.diff(s2) >= -1e-9 * sc), 'spread decreases from bin to bin: %s' % spread[idx])
        big = n % nbins
        c.count('uneven bins', big != 0)
        c.count('binned cells')
        # the larger bins may come in any order: a choice has to reproduce all bins
        q = n // nbins
        ties = len(np.unique(vs)) < n
        c.count('tied variances', ties)
        # walk through the bins, keeping the possible boundaries
        states = {0: None}
        for b in range(nbins):
            nxt = {}
            for st in states:
                for size in ({q, q + 1} if big else {q}):
                    en = st + size
                    if size == 0 or en > n:
                        continue
                    if abs(vs[st:en].mean() - s2[b]) <= 1e-8 * sc + 1e-9 * vs[st:en].mean():
                        if ties or abs(es[st:en].mean() - r2[b]) <= 1e-8 * max(es.max(), 1e-300):
                            nxt[en] = st
            states = nxt
            if not states:
                c.fail('bin %d of kept cell %s reports spread %r, RMSE %r: no contiguous bin of %d or %d samples gives them' % (
                    b, idx, spread[idx][b], rmse[idx][b], q, q + 1))
        c.true(n in states, 'bins do not cover all samples of kept cell %s' % (idx,))
        if big == 0:
            c.close('conserved squared error', r2.mean(), e.mean(), 1e-8, 1e-12)
            c.close('conserved variance', s2.mean(), v.mean(), 1e-8, 1e-12)


def util(c):
    nd = int(c.rng.integers(1, 4))
    while True:
        shp = core.shape(c.rng, nd, 1, 9, 250)
        ax = core.axes(c.rng, nd)
        n = int(np.prod([shp[i] for i in core.norm_axes(ax, nd)]))
        if n >= 2:
            break
    nbins = int(c.rng.integers(1, min(n, 12) + 1))
    var = c.rng.gamma(2, 2, shp)
    if c.index % 4 == 0:
        var = np.round(var)
    elif c.index % 4 == 2 and var.size > 1:
        # all different, all nearly the same
        var = float(c.rng.choice([1, 7.5, 300])) * (1 + 1e-9 * c.rng.permutation(var.size).reshape(shp))
        c.count('nearly equal variances')
    sq = c.rng.gamma(1, 3, shp) * (1 + var)
    axa = None if ax is None else ((ax,) if isinstance(ax, int) else ax)
    c.say(shape=str(shp), avg_axis=str(ax), nbins=nbins)
    c.sig('util', shp, ax, nbins, c.index % 4 == 0)
    c.count('util function')
    got = c.call('binned_spread_skill', binned_spread_skill, core.layout(c.rng, var), core.layout(c.rng, sq), nbins, axa)
    judge(c, got, var, sq, ax, nbins)


def verifier(c):
    kind = ['ens', 'gauss', 'gamma', 'ens', 'tgauss', 'hurdle'][c.index % 6]
    nd = int(c.rng.integers(1, 4))
    while True:
        shp = core.shape(c.rng, nd, 1, 8, 150)
        ax = core.axes(c.rng, nd)
        n = int(np.prod([shp[i] for i in core.norm_axes(ax, nd)]))
        if n >= 2:
            break
    spec = mk.make(c.rng, kind, shp, distinct=True)
    nbins = int(c.rng.integers(1, min(n, 10) + 1))
    v = c.call('construct', spec.build, avg_axis=ax)
    c.say(kind=kind, shape=str(shp), avg_axis=str(ax), nbins=nbins)
    c.sig(kind, shp, ax, nbins)
    var = c.call('variance', v.variance)
    c.count('variance')
    if kind == 'hurdle':
        dx = spec.bin_width()
        c.true(np.all(np.abs(var - spec.var()) <= dx * (4 * spec.determ() + 2 * dx)), 'variance of a hurdle forecast')
        sq = (v.f_determ() - spec.o) ** 2
    else:
        c.close('variance', var, spec.var(), 1e-9, 1e-9)
        sq = (spec.determ() - spec.o) ** 2
    got = c.call('binned_spread_skill', v.binned_spread_skill, nbins=nbins)
    judge(c, got, var, sq, ax, nbins)
    c.count('verifier')
    if nbins <= 15 <= n:
        judge(c, c.call('binned_spread_skill default', v.binned_spread_skill), var, sq, ax, 15)


def spread(c):
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 1, 6, 100)
    ax = core.axes(c.rng, nd)
    f, a, first = core.ensemble(c.rng, shp)
    o = core.values(c.rng, shp)
    v = c.call('construct', mk.CLS['ens'], f, o, ensemble_axis=core.ens_axis_arg(c.rng, a, f.ndim), avg_axis=ax)
    M = core.members_first(f, a).astype(float)
    hi, lo = M[0].copy(), M[0].copy()
    for m in M:
        hi, lo = np.where(m > hi, m, hi), np.where(m < lo, m, lo)
    t = core.tol(f)
    s = float(np.abs(M).max()) + 1e-30
    c.sig('spread', shp, ax, a, f.dtype)
    c.close('spread', c.call('spread', v.spread), core.reduce_rows(hi - lo, ax), t, t * s)
    mean = sum(M) / len(M)
    c.close('variance', c.call('variance', v.variance), sum((m - mean) ** 2 for m in M) / len(M), max(t, 1e-9), max(t, 1e-9) * s * s)
    c.count('spread')
    c.count('variance')


def sampled(c):
    kind = ['gauss', 'tgauss', 'gamma', 'tgamma'][c.index % 4]
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 1, 5, 60)
    ax = core.axes(c.rng, nd)
    spec = mk.make(c.rng, kind, shp)
    pos = int(c.rng.integers(-(nd + 1), nd + 1))
    m = int(c.rng.integers(1, 12))
    v = c.call('construct', spec.build, n_sample_members=m, move_sampled_ens_axis=pos, working_directory=c.tmp(), avg_axis=ax)
    e = np.moveaxis(c.call('prob_to_ens', v.prob_to_ens), pos, 0)
    c.sig('sampled', kind, shp, ax, pos, m)
    c.close('spread of sampled members', c.call('spread', v.spread), core.reduce_rows(e.max(0) - e.min(0), ax), 1e-9, 1e-10)
    c.count('sampled spread')


def mixed(c):
    """Variances and squared errors stored in different types."""
    n = int(c.rng.integers(4, 40))
    nbins = int(c.rng.integers(1, n // 2 + 1))
    var = c.rng.permutation(n)
    sq = c.rng.gamma(1, 3, n)
    if c.index % 3 == 0:
        var = var.astype([np.int64, np.int32, np.int16][c.index % 9 // 3])
    elif c.index % 3 == 1:
        var, sq = c.rng.gamma(2, 2, n), c.rng.integers(0, 30, n)
    else:
        var = var.astype(np.float32)
        sq = 1e-3 * sq + 1e6
    c.sig('mixed', n, nbins, str(var.dtype))
    got = c.call('binned_spread_skill', binned_spread_skill, var, sq, nbins, None)
    judge(c, got, var.astype(float), sq.astype(float), None, nbins)
    c.count('mixed types')


def many_bins(c):
    """More bins than usual, which the samples do not fill evenly."""
    n = int(c.rng.integers(60, 500))
    nbins = int(c.rng.integers(min(30, n - 1), min(n, 150) + 1))
    C = int(c.rng.integers(1, 4))
    var = c.rng.gamma(2, 2, (n, C))
    sq = c.rng.gamma(1, 3, (n, C)) * (1 + var)
    if c.index % 2:
        judge(c, c.call('binned_spread_skill', binned_spread_skill, var, sq, nbins, (0,)), var, sq, 0, nbins)
    else:
        f = {'mu': np.zeros((n, C)), 'sigma': np.sqrt(var)}
        v = c.call('construct', mk.CLS['gauss'], f, np.sqrt(sq), avg_axis=0)
        judge(c, c.call('binned_spread_skill', v.binned_spread_skill, nbins=nbins), var, sq, 0, nbins)
    c.count('many bins', nbins > 50)
    c.sig('many bins', n, nbins, C)


WORKLOADS = [('many_bins', many_bins, 16, 250), ('mixed', mixed, 40, 500), ('util', util, 120, 2500), ('verifier', verifier, 80, 1500), ('spread', spread, 80, 1200), ('sampled', sampled, 60, 800)]
WORKLOADS += [units.workload('C13'), units.far_workload('C13'), units.types_workload('C13')]
_L = core.larger(WORKLOADS, ['util', 'verifier', 'spread', 'sampled', 'units', 'far'], 8, 120)
_L += core.larger(WORKLOADS, ['util', 'spread'], 3, 40, 50000, 250000)
WORKLOADS += _L
WORKLOADS += core.with_many(WORKLOADS, ['verifier', 'spread'], 12, 200)
