"""Ensemble CRPS is the kernel score of the members."""
import numpy as np
from mon import core, mk, units

RULE = 'distinct (shape, member count, member axis as written, split setting, value kind) with every cell compared'
REQUIRE = ['split along first axis', 'members first', 'members last', 'one member', 'perfect ensembles', 'permuted members', 'many members']


def ref(m, o):
    """Kernel score, cell by cell."""
    m = np.asarray(m, float)
    o = np.asarray(o, float)
    out = np.empty(o.shape)
    for idx in np.ndindex(*o.shape):
        x = m[(slice(None),) + idx]
        out[idx] = np.mean(np.abs(x - o[idx])) - 0.5 * np.mean(np.abs(x[:, None] - x[None, :]))
    return out


def build(c, f, o, ax, first, split):
    """-> cell-wise crps through the public average over an extra axis of length one."""
    nd = o.ndim
    pos = int(c.rng.integers(1 if split else 0, nd + 1))          # where the axis of length one goes
    o2 = np.expand_dims(o, pos)
    f2 = np.moveaxis(np.expand_dims(np.moveaxis(f, ax, 0), pos + 1), 0, 0 if first else -1)
    arg = core.ens_axis_arg(c.rng, 0 if first else -1, f2.ndim)
    c.env(split_crps_ensemble_along_0=split)
    v = c.call('construct', mk.CLS['ens'], f2, o2, ensemble_axis=arg, avg_axis=(pos,))
    return c.call('crps', v.crps), arg


def kernel(c):
    nd = int(c.rng.integers(1, 4))
    shp = core.shape(c.rng, nd, 1, 5, 3 if core.MANY and core.MANY[0] >= 1000 else 60)
    m = 1 if c.index % 9 == 0 else int(c.rng.integers(2, 20))
    first = c.index % 2 == 0
    split = c.index % 3 == 0
    f, ax, first = core.ensemble(c.rng, shp, m, first=first)
    m = f.shape[ax]
    o = core.values(c.rng, shp)
    if c.rng.random() < 0.3:
        o = np.asarray(np.take(core.members_first(f, ax), 0, axis=0)).copy()
    c.count('split along first axis', split)
    c.count('members first' if first else 'members last')
    c.count('one member', m == 1)
    c.say(shape=str(shp), members=m, axis=ax, split=split, f=f, o=o)
    got, arg = build(c, f, o, ax, first, split)
    c.sig(shp, m, arg, split, f.dtype)
    M = core.members_first(f, ax)
    want = ref(M, o)
    s = float(np.abs(M).max() + np.abs(o).max()) + 1e-30
    t = core.tol(f, o)
    c.close('crps', got, want, t, max(t, 1e-10) * s * 10)
    c.true(np.all(got >= -max(t, 1e-10) * s * 10), 'negative CRPS')
    if m == 1:
        c.close('crps of one member', got, np.abs(M[0].astype(float) - o), t, max(t, 1e-10) * s)
    # order of members, and the averaged value
    c.count('permuted members')
    P = M[c.rng.permutation(m)]
    f2 = P if first else np.moveaxis(P, 0, -1)
    got2, _ = build(c, f2, o, ax, first, split)
    c.close('crps with members in another order', got2, got, t, max(t, 1e-10) * s * 10)
    avg = core.axes(c.rng, nd)
    v = c.call('construct', mk.CLS['ens'], f, o, ensemble_axis=ax, avg_axis=avg)
    c.close('mean crps over %s' % (avg,), c.call('crps', v.crps), core.reduce_rows(want, avg), t, max(t, 1e-10) * s * 10)


def perfect(c):
    shp = core.shape(c.rng, None, 1, 5, 60)
    o = core.values(c.rng, shp)
    m = int(c.rng.integers(1, 10))
    first = bool(c.index % 2)
    f = np.stack([o] * m, axis=0 if first else -1)
    got, _ = build(c, f, o, 0 if first else -1, first, bool(c.index % 3 == 0))
    c.sig('perfect', shp, m, first)
    c.count('perfect ensembles')
    c.close('crps of a perfect ensemble', got, np.zeros(shp), 0, 1e-9 * float(np.abs(o).max()))


def guess(c):
    """Member axis left to be guessed."""
    shp = core.shape(c.rng, int(c.rng.integers(2, 4)), 2, 6, 120)
    m = int(c.rng.integers(7, 15))
    f, ax, first = core.ensemble(c.rng, shp, m, 'normal')
    o = core.values(c.rng, shp, 'normal')
    c.env(split_crps_ensemble_along_0=bool(c.index % 2))
    v = c.call('construct', mk.CLS['ens'], f, o)
    c.sig('guess', shp, m, first, c.index % 2)
    c.close('crps with guessed axis', c.call('crps', v.crps), ref(core.members_first(f, ax), o).mean(), 1e-9, 1e-9)


WORKLOADS = [('kernel', kernel, 180, 4000), ('perfect', perfect, 24, 300), ('guess', guess, 24, 300)]
WORKLOADS += [units.workload('C03'), units.far_workload('C03'), units.types_workload('C03')]
_L = core.larger(WORKLOADS, ['kernel', 'guess', 'units', 'far'], 8, 120)
WORKLOADS += _L
WORKLOADS += core.with_many(WORKLOADS, ['kernel'], 10, 200, hi=400)
WORKLOADS.append(('most_kernel', core.many(kernel, 1000, 3500), 6, 60))
