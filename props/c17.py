"""Parallel and low-memory execution change no result."""
import os
import numpy as np
from scipy import stats
from mon import core, mk, slow
from PyAnEn.utils_verify import rank_histogram, ens_to_prob
from PyAnEn.utils_dist import sample_dist_gaussian, sample_dist_gamma
from PyAnEn.utils_approximation import Integration

RULE = ('distinct (operation, verifier type, shape, workers, split axis, chunk size, memory mode) run both ways; '
        'random delays are injected into the workers')
REQUIRE = ['process pools', 'hundreds of tasks', 'split axes other than the last', 'ranks', 'cdf', 'ens_to_prob', 'sampling', 'low memory', 'cells without a distribution', 'ray runs',
           'delayed workers', 'ray out of order', 'tied ranks in workers', 'tasks with numbers of their own', 'kde in workers', 'ray runs with a thousand tasks']
P = 1e-9


def parallel(c, nd, workers=None):
    w = workers or int(c.rng.integers(2, 5))
    ax = -int(c.rng.integers(1, nd + 1))
    ch = int(c.rng.choice([1, 1, 2, 5]))
    c.env(tqdm_workers=w, tqdm_map_axis=ax, tqdm_chunksize=ch)
    c.count('process pools')
    c.count('split axes other than the last', ax != -1)
    c.say(workers=w, map_axis=ax, chunksize=ch)
    c.count('delayed workers')
    return w, ax, ch


def serial(c):
    c.env(tqdm_workers=1)


def cdf(c):
    kind = mk.DIST[c.index % 5]
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 1, 6, 80)
    spec = mk.make(c.rng, kind, shp)
    v = c.call('construct', spec.build)
    t = c.rng.uniform(-2, 12, shp) if c.index % 2 else float(c.rng.uniform(-1, 9))
    a = c.call('cdf', v.cdf, below=t)
    b = parallel(c, nd)
    c.sig('cdf', kind, shp, b, c.index % 2)
    with slow.WorkerJitter(c.npseed):
        got = c.call('cdf parallel', v.cdf, below=t)
        c.close('parallel cdf', got, a, 1e-12, 1e-14)
        c.close('parallel cdf', got, spec.cdf(t), 1e-8, 1e-9)
        if c.index % 3 == 0:
            br = c.call('brier parallel', v.brier, over=float(c.rng.uniform(0, 5)))
            c.true(np.isfinite(br), 'brier')
        if c.index % 3 == 1:
            r = mk.Spec(spec.kind, spec.f, spec.o, **spec.kw).build(pit_randomize_zero_ranks=False)
            c.close('parallel pit', c.call('pit parallel', r.pit), spec.cdf(spec.o), 1e-8, 1e-9)
    c.count('cdf')


def ens(c):
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 1, 6, 60)
    kde = c.index % 4 == 3
    f, a, first = core.ensemble(c.rng, shp, int(c.rng.integers(2, 9)), 'normal')
    o = c.rng.normal(f.mean(), f.std() + .1, shp)
    if kde:
        c.env(ens_to_prob_method='kde', kde_bandwidth=float(c.rng.choice([.25, .5, 1.5])), kde_samples=int(c.rng.integers(30, 2000)),
              kde_kernel=str(c.rng.choice(['gaussian', 'tophat', 'linear'])), kde_multiply_spread=int(c.rng.integers(1, 9)))
        c.count('kde in workers')
    t = np.array(core.members_first(f, a)[0], float) if c.index % 2 else float(np.median(f))
    want = c.call('ens_to_prob', ens_to_prob, f, a, below=t)
    wr = c.call('rank_histogram', rank_histogram, f, o, a)
    b = parallel(c, nd)
    c.sig('ens', shp, first, b, kde, c.index % 2)
    with slow.WorkerJitter(c.npseed, .004):
        got = c.call('ens_to_prob parallel', ens_to_prob, f, a, below=t)
        c.close('parallel ens_to_prob', got, want, 1e-12, 1e-14)
        if not kde:
            M = core.members_first(f, a)
            c.close('parallel ens_to_prob', got, (M <= np.broadcast_to(t, shp)[None]).mean(0), 1e-12, 1e-14)
        gr = c.call('rank_histogram parallel', rank_histogram, f, o, a)
        c.close('parallel ranks', gr, wr, 0, 0)
    c.count('ens_to_prob')
    c.count('ranks')


def tied(c):
    """Ties resolved in workers: in range, uniform, different between tasks."""
    from .c09 import judge
    m, k = 3, 3
    n, w = 60, 24
    o = np.zeros((n, w))
    f = np.zeros((m, n, w))
    parallel(c, 2)
    c.env(tqdm_map_axis=[-1, -2][c.index % 2])
    r = np.asarray(c.call('rank_histogram parallel', rank_histogram, f, o, 0))
    judge(c, r, f, o)
    cnt = np.bincount(r.ravel().astype(int) - 1, minlength=4)
    p = stats.chisquare(cnt).pvalue
    c.true(p > P, 'tied ranks of workers are not uniform: %s' % cnt.tolist())
    for ax in (0, 1):
        x = np.moveaxis(r, ax, 0).reshape(r.shape[ax], -1)
        same = np.mean(x[:-1] == x[1:])
        n_ = x[1:].size
        c.true(abs(same - .25) < 8 * np.sqrt(.25 * .75 / n_), 'tied ranks of different tasks agree too often: %.3f instead of 0.25' % same)
    # no two tasks of a long axis draw the same numbers
    nt = 150
    z = np.zeros((nt, 32)) if c.index % 2 else np.zeros((32, nt))
    c.env(tqdm_map_axis=-2 if c.index % 2 else -1)
    r = np.asarray(c.call('rank_histogram parallel', rank_histogram, np.zeros((3,) + z.shape), z, 0))
    r = r if c.index % 2 else r.T
    c.true(r.shape == (nt, 32), 'shape %s of ranks' % (r.shape,))
    u = len(np.unique(r, axis=0))
    c.true(u == nt, 'only %d of %d tasks resolve ties with numbers of their own' % (u, nt))
    c.count('tasks with numbers of their own', u)
    c.count('tied ranks in workers', n * w)
    c.sig('tied', c.index)


def sampling(c):
    """Members sampled in workers: own cell, right distribution, independent between tasks."""
    kind = ['gauss', 'tgauss', 'gamma', 'tgamma'][c.index % 4]
    shp = [(12, 8), (20,), (3, 4, 5)][int(c.rng.integers(3))]
    spec = mk.make(c.rng, kind, shp)
    f = spec.f
    if kind in ('gauss', 'tgauss'):
        f['mu'] = f['mu'] + 6 * c.rng.permutation(f['mu'].size).reshape(shp) * (kind == 'gauss')
    n = 150
    pos = int(c.rng.integers(-(len(shp) + 1), len(shp) + 1))
    b = parallel(c, len(shp))
    with slow.WorkerJitter(c.npseed, .003):
        if kind in ('gauss', 'tgauss'):
            e = c.call('sample parallel', sample_dist_gaussian, f['mu'], f['sigma'], n, pos, kind == 'tgauss')
        else:
            e = c.call('sample parallel', sample_dist_gamma, f['unshifted_mu'], f['sigma'], f['shift'], n, pos, kind == 'tgamma')
    c.true(e.ndim == len(shp) + 1 and e.shape[pos] == n, 'shape %s for member axis %d' % (e.shape, pos))
    E = np.moveaxis(e, pos, 0)
    c.true(E.shape[1:] == shp, 'shape %s' % (E.shape,))
    U = np.stack([spec.cdf(x) for x in E])
    c.sig('sampling', kind, shp, pos, b)
    c.count('sampling')
    worst = min(float(core.ks_uniform(U[(slice(None),) + i])) for i in np.ndindex(*shp))
    c.true(worst > 1e-11, 'members of a cell do not follow its distribution (KS p=%.3g)' % worst)
    p = core.ks_uniform(U)
    c.true(p > P, 'members do not follow their distributions (KS p=%.3g)' % p)
    # members of different tasks are different
    flat = U.reshape(n, -1)
    C = np.corrcoef(flat.T)
    np.fill_diagonal(C, 0)
    c.true(np.abs(C).max() * np.sqrt(n) < 8, 'members of different cells repeat each other (correlation %.3f)' % np.abs(C).max())


def long(c):
    """Hundreds of tasks, one or many at a time, are put back in their order and exactly as computed."""
    kind = ['ens', 'gauss', 'gamma', 'hurdle', 'tgauss', 'tgamma'][c.index % 6]
    nt = int(c.rng.integers(210, 460))
    rest = [(), (2,), (3,)][int(c.rng.integers(3))]
    ax = int(c.rng.integers(len(rest) + 1))
    shp = rest[:ax] + (nt,) + rest[ax:]
    c.env(tqdm_workers=int(c.rng.integers(2, 5)), tqdm_map_axis=ax - len(shp), tqdm_chunksize=int(c.rng.choice([1, 7, 32, 100, 1000])))
    if kind == 'ens':
        f, a, first = core.ensemble(c.rng, shp, int(c.rng.integers(2, 6)), 'normal')
        o = c.rng.normal(f.mean(), f.std() + .1, shp)
        want = c.call('rank_histogram parallel', rank_histogram, f, o, a)
        M = core.members_first(f, a)
        c.close('ranks of %d tasks' % nt, want, (M < o[None]).sum(0) + 1, 0, 0)
        t = c.rng.normal(f.mean(), 1, shp)
        c.close('ens_to_prob of %d tasks' % nt, c.call('ens_to_prob parallel', ens_to_prob, f, a, below=t), (M <= t[None]).mean(0), 1e-13, 0)
    else:
        spec = mk.make(c.rng, kind, shp)
        t = c.rng.uniform(0, 8, shp)
        got = c.call('cdf parallel', c.call('construct', spec.build).cdf, below=t)
        serial(c)
        c.close('cdf of %d tasks' % nt, got, c.call('cdf', spec.build().cdf, below=t), 1e-12, 1e-14)
        c.close('cdf of %d tasks' % nt, got, spec.cdf(t), 1e-8, 1e-9)
    c.count('hundreds of tasks', nt)
    c.count('process pools')
    c.sig('long', kind, nt, ax)


def exact_stats(spec):
    return spec.determ(), spec.var()


def memory(c):
    """Low-memory integration, serial."""
    kind = ['hurdle', 'gauss', 'gamma', 'ens', 'tgauss'][c.index % 5]
    shp = core.shape(c.rng, int(c.rng.integers(1, 4)), 1, 5, 60)
    spec = mk.make(c.rng, kind, shp, distinct=True)
    gone = kind != 'ens' and c.words.random() < .4
    if gone:        # cells without a distribution
        spec = spec.copy()
        hole = c.words.random(shp) < .3
        hole.flat[int(c.words.integers(hole.size))] = True
        for a in spec.f.values():
            a[hole] = np.nan
        c.count('cells without a distribution', int(hole.sum()))
    v = c.call('construct', spec.build)
    nb = int(c.rng.integers(2, 60))
    rng_ = (-30., 60.) if c.index % 2 else None
    a = Integration(v, rng_, nb)
    b = Integration(v, rng_, nb, less_memory=True, memmap_dir=c.tmp())
    for name in ('mean', 'variance', 'crps'):
        x, y = c.call(name, getattr(a, name)), c.call(name + ' low memory', getattr(b, name))
        s = max(1., float(np.abs(a.seq_x).max()) ** (2 if name == 'variance' else 1))
        c.close('low-memory ' + name, y, x, 1e-10, 1e-11 * s)
    if kind == 'hurdle':
        w = [v.crps(), v.f_determ(), v.variance()]
        c.env(integrate_with_less_memory=True, integrate_wdir=c.tmp())
        g = [c.call('crps low memory', v.crps), c.call('f_determ low memory', v.f_determ), c.call('variance low memory', v.variance)]
        for x, y in zip(g, w):
            c.close('low-memory verifier', x, y, 1e-9, 1e-9 * spec.bin_width() * 200)
    c.sig('memory', kind, shp, nb)
    c.count('low memory')


def attempt(fn):
    """A cluster that fails to start is given a second chance."""
    import ray
    try:
        return fn()
    except Exception:
        ray.shutdown()
        return fn()


def ray_run(c):
    """Integration distributed over ray workers; the first tasks are made to finish last."""
    kind = ['hurdle', 'gauss', 'ens', 'gamma', 'tgauss'][c.index % 5]
    shp = core.shape(c.rng, int(c.rng.integers(1, 3)), 2, 5, 25)
    spec = mk.make(c.rng, kind, shp, distinct=True)
    if kind == 'ens':
        spec.f = spec.f - spec.f.mean() + float(c.rng.uniform(2, 20))       # within the range of integration
    nb = int(c.rng.integers(7, 14))
    less = bool(c.index // 3 % 2)
    name = ['crps', 'mean', 'variance'][c.index % 3]
    lo, hi = -10., 40.
    cls = slow.SLOW[kind]
    kw = dict(spec.kw)
    if kind == 'ens':
        kw['ensemble_axis'] = spec.ax
    if kind == 'tgauss':
        kw['truncated'] = True
    kw.pop('integration_range', None)
    kw.pop('n_approx_bins', None)
    v = c.call('construct', cls, spec.f, spec.o, **kw)
    want = c.call(name, getattr(Integration(v, (lo, hi), nb, workers=1), name))
    log = os.path.join(c.tmp(), 'finished')
    v.delay = (lo, hi, 1.0, log)
    d = c.tmp()
    w = 3
    before = {k: os.environ[k] for k in os.environ if k.startswith('pyanen_')}
    I = Integration(v, (lo, hi), nb, workers=w, less_memory=less, memmap_dir=d)
    got = c.call(name + ' ray', attempt, getattr(I, name))
    c.sig('ray', kind, shp, nb, less, name)
    c.say(kind=kind, shape=str(shp), bins=nb, less_memory=less, metric=name)
    c.count('ray runs')
    order = [float(x) for x in open(log)]
    c.say(finished=str(order))
    c.count('ray tasks', len(order))
    c.count('ray out of order', order != sorted(order))
    c.close('%s distributed over %d workers' % (name, w), got, want, 1e-10, 1e-11 * hi ** 2)
    c.true(not os.listdir(d), 'scratch file left behind')
    after = {k: os.environ[k] for k in os.environ if k.startswith('pyanen_')}
    c.true(before == after, 'settings changed')


def ray_many(c):
    """More tasks than have three digits."""
    kind = ['gauss', 'ens', 'gamma'][c.index % 3]
    shp = core.shape(c.rng, int(c.rng.integers(1, 3)), 1, 3)
    spec = mk.make(c.rng, kind, shp, distinct=True)
    spec.kw = {}
    if kind == 'ens':
        spec.f = spec.f - spec.f.mean() + float(c.rng.uniform(2, 20))
    nb = int(c.rng.integers(1010, 1150))
    lo, hi = -10., 40.
    less = bool(c.index % 2)
    name = ['variance', 'crps', 'mean'][c.index % 3]
    v = c.call('construct', spec.build)
    want = c.call(name, getattr(Integration(v, (lo, hi), nb, workers=1), name))
    d = c.tmp()
    I = Integration(v, (lo, hi), nb, workers=int(c.rng.integers(2, 4)), less_memory=less, memmap_dir=d)
    got = c.call(name + ' ray', attempt, getattr(I, name))
    c.close('%s of %d bins distributed over workers' % (name, nb), got, want, 1e-10, 1e-11 * hi ** 2)
    c.true(not os.listdir(d), 'scratch file left behind')
    c.sig('ray many', kind, name, less)
    c.count('ray tasks', nb)
    c.count('ray runs with a thousand tasks')


WORKLOADS = [('cdf', cdf, 20, 300), ('long', long, 12, 160), ('ens', ens, 20, 300), ('tied', tied, 4, 40), ('sampling', sampling, 12, 160),
             ('memory', memory, 25, 400), ('ray_run', ray_run, 6, 30), ('ray_many', ray_many, 3, 12)]
