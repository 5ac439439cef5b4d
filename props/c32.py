"""Multi-file datasets put stations in rank order without loss."""
import os
import numpy as np
import xarray.backends.api as api
import netCDF4
from mon import core
from PyAnEn import IO

RULE = 'distinct (number of files, rank numbers, stations per file, group, way the paths are given, decoding) datasets compared with the files'
REQUIRE = ['stations compared', 'files', 'gaps in ranks', 'ranks of different width', 'single station files', 'large files', 'files of more than 10000 stations', 'groups', 'locations from the root',
           'lead times from the root', 'glob', 'list of paths', 'home directory', 'decoded', 'renamed test times', 'single file',
           'values compared', 'times compared', 'times labelled in the files', 'decoded times labelled in the files', 'large rank numbers', 'times of both kinds', 'files without times', 'values with fill value or scale factor']
ASSUMPTIONS = ['dask is not installed here, so the files are read eagerly: xarray opens each file without chunking, and parallel=False is passed.']

_open = api.open_dataset


def eager(*b, **q):
    q.pop('chunks', None)
    return _open(*b, **q)


def packed(x):
    return (np.round(x).astype(int) % 12 - 9).astype('i2')


def mfile(c):
    rng = c.rng
    d = c.tmp()
    home = bool(rng.random() < .2)
    if home:
        d = os.path.join(os.environ['HOME'], 'mf%d' % c.index)
        os.mkdir(d)
        c._dirs.append(d)
    nf = int(rng.integers(1, 7)) if c.index != 12 else 4
    ranks = sorted(int(x) for x in rng.permutation(14 if rng.random() < .7 else 130)[:nf])
    if c.index % 7 == 3 or c.index % 24 == 0:
        ranks = sorted({int(x) for x in (ranks[0] + rng.choice([1, 1000, 99999, 1000000, 10 ** 10]) + np.arange(nf) * int(rng.choice([1, 9, 7000])))})
        c.count('large rank numbers')
    pad = bool(rng.random() < .4)
    if ranks != list(range(ranks[0], ranks[0] + nf)):
        c.count('gaps in ranks')
    if not pad and len({len(str(r)) for r in ranks}) > 1:
        c.count('ranks of different width')
    kind = ['forecast', 'analogs', 'plain'][int(rng.integers(3))]
    group = None if rng.random() < .5 else str(rng.choice(['Analogs', 'Forecasts']))
    locs_in_group = bool(rng.random() < .4)
    nt, nl, na = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    flts = np.sort(rng.permutation(100)[:nl]) * 3600.
    base = int(rng.integers(0, 2 ** 30))
    times = base + np.sort(rng.permutation(1000)[:nt]) * 3600.
    # files with both kinds of times, and files without times and lead times
    dims = ['usual', 'usual', 'usual', 'both', 'neither'][int(rng.integers(5))]
    if dims == 'both':
        kind = 'analogs'
    nt2 = int(rng.integers(1, 4))
    times2 = 5e8 + np.arange(nt2) * 3600.
    tdim, tname = ('num_test_times', 'test_times') if kind == 'analogs' else ('num_times', 'Times')
    names = []
    labelled = bool(rng.random() < .3)
    ttype = str(rng.choice(['f8', 'i8', 'u4']))
    X, Y, D, E = [], [], [], []
    write_order = list(rng.permutation(nf))
    parts = {}
    for i, r in enumerate(ranks):
        n = int(rng.integers(1, 6)) if c.index % 12 else int(rng.integers(900, 3000)) if c.index != 12 else int(rng.integers(10500, 13000))
        if n > 1000:
            c.count('large files')
        if n > 10000:
            c.count('files of more than 10000 stations')
        if n == 1:
            c.count('single station files')
        # unsorted coordinates: only the rank and the position decide
        parts[i] = (rng.normal(0, 100, n), rng.normal(0, 50, n), rng.normal(0, 1, (nl, nt, n)), rng.normal(0, 1, (n, na)), rng.normal(0, 1, (nt2, n)))
    pre = str(rng.choice(['AnEn_', 'out-', 'x.y_']))
    suf = str(rng.choice(['', '_v2', '_20190101']))
    for i in write_order:
        i = int(i)
        r = ranks[i]
        x, y, a, b, a2 = parts[i]
        n = len(x)
        p = os.path.join(d, '%sRank%s%s.nc' % (pre, ('%04d' % r) if pad else r, suf))
        with netCDF4.Dataset(p, 'w') as nc:
            for k, m in (('num_stations', n), ('num_flts', nl), (tdim, nt), ('num_analogs', na)):
                nc.createDimension(k, m)
            g = nc.createGroup(group) if group else nc
            if group and not locs_in_group or not group:
                nc.createVariable('Xs', 'f8', ('num_stations',))[:] = x
                nc.createVariable('Ys', 'f8', ('num_stations',))[:] = y
            else:
                # other locations in the root: those of the group count
                nc.createVariable('Xs', 'f8', ('num_stations',))[:] = x + 1000
                nc.createVariable('Ys', 'f8', ('num_stations',))[:] = y + 1000
                g.createVariable('Xs', 'f8', ('num_stations',))[:] = x
                g.createVariable('Ys', 'f8', ('num_stations',))[:] = y
            g.createVariable('Extra', 'f8', ('num_stations', 'num_analogs'))[:] = b
            pk = g.createVariable('Packed', 'i2', ('num_stations',), fill_value=-9)
            pk.set_auto_maskandscale(False)
            pk.scale_factor = .5
            pk[:] = packed(x)
            if dims == 'neither':
                names.append(p)
                continue
            nc.createVariable('FLTs', 'f8', ('num_flts',))[:] = flts
            tv = nc.createVariable(tname, ttype, (tdim,))
            tv[:] = times
            if labelled:
                tv.units = 'seconds since 1970-01-01'
            g.createVariable('Data', 'f8', ('num_flts', tdim, 'num_stations'))[:] = a
            if dims == 'both':
                nc.createDimension('num_times', nt2)
                nc.createVariable('Times', ttype, ('num_times',))[:] = times2
                g.createVariable('Other', 'f8', ('num_times', 'num_stations'))[:] = a2
        names.append(p)
    X = np.concatenate([parts[i][0] for i in range(nf)])
    Y = np.concatenate([parts[i][1] for i in range(nf)])
    D = np.concatenate([parts[i][2] for i in range(nf)], -1)
    E = np.concatenate([parts[i][3] for i in range(nf)], 0)
    for j in range(int(rng.integers(0, 2))):
        open(os.path.join(d, 'notes.txt'), 'w').write('x')
    style = int(rng.integers(2))
    show = '~/' + os.path.basename(d) if home else d
    if home:
        c.count('home directory')
    if style == 0:
        paths = show + '/*.nc'
        c.count('glob')
    else:
        paths = [os.path.join(show, os.path.basename(p)) for p in names]
        paths = [paths[i] for i in rng.permutation(nf)]
        c.count('list of paths')
    decode = bool(rng.random() < .3)
    kw = {'parallel': False}
    if group:
        kw['group'] = group
    if decode:
        kw['decode'] = True
    api.open_dataset = eager
    try:
        with c.record() as rec:
            ds = c.call('open_mfdataset', IO.open_mfdataset, paths, **kw)
            what = '%d files, ranks %s' % (nf, ranks)
            c.true(ds.sizes['num_stations'] == X.size, '%s: %d stations instead of %d' % (what, ds.sizes['num_stations'], X.size))
            c.close(what + ': x coordinates in rank order', ds['Xs'].values, X, 0, 0)
            c.close(what + ': y coordinates in rank order', ds['Ys'].values, Y, 0, 0)
            tout = 'num_test_times' if dims == 'both' else 'num_times'
            if dims != 'neither':
                c.close(what + ': Data', ds['Data'].transpose('num_flts', tout, 'num_stations').values, D, 0, 0)
            c.close(what + ': Extra', ds['Extra'].transpose('num_stations', 'num_analogs').values, E, 0, 0)
            if not decode:
                c.true(ds['Packed'].dtype == np.int16 and np.array_equal(ds['Packed'].values, packed(X)),
                       what + ': packed values %s are not those stored' % core.brief(ds['Packed'].values))
                c.count('values with fill value or scale factor', X.size)
            lab = np.asarray(ds['num_stations'].values)
            c.true(len(np.unique(lab)) == X.size and np.all(np.diff(lab.astype(float)) > 0), '%s: station labels %s' % (what, lab[:8]))
            # selecting by label finds the station
            j = int(rng.integers(X.size))
            c.close('selection by label', ds.sel(num_stations=lab[j])['Xs'].values, X[j], 0, 0)
            if dims == 'both':
                O = np.concatenate([parts[i][4] for i in range(nf)], -1)
                c.close(what + ': Other', ds['Other'].transpose('num_times', 'num_stations').values, O, 0, 0)
                c.true('num_test_times' in ds.coords, 'test times are no coordinate')
            c.count('times of both kinds', dims == 'both')
            c.count('files without times', dims == 'neither')
            c.true('num_flts' not in ds.dims or 'num_flts' not in ds.coords or np.array_equal(ds['num_flts'].values, flts),
                   'lead times %s instead of %s' % (ds.get('num_flts'), flts))
            c.true('num_flts' in ds.coords or dims == 'neither', 'lead times are no coordinate')
            c.count('lead times from the root')
            if dims != 'usual':
                pass
            elif kind == 'analogs':
                c.count('renamed test times')
                c.true('num_times' in ds.coords, 'test times are no coordinate')
                t = ds['num_times'].values
                if decode:
                    w = np.datetime64('1970-01-01', 'ns') + (times * 10 ** 9).astype('i8').astype('timedelta64[ns]')
                    c.true(t.dtype.kind == 'M' and np.all(np.abs((t.astype('datetime64[ns]') - w).astype('i8')) < 10 ** 6),
                           'test times decode to %s instead of %s' % (t, w))
                else:
                    c.close('test times', t, times, 0, 0)
                    c.true(str(ds['num_times'].attrs.get('units', '')).startswith('seconds since 1970-01-01'), 'test times are not labelled')
            elif not group:
                t = ds['Times'].values
                if decode:
                    w = np.datetime64('1970-01-01', 'ns') + (times * 10 ** 9).astype('i8').astype('timedelta64[ns]')
                    c.true(t.dtype.kind == 'M' and np.all(np.abs((t.astype('datetime64[ns]') - w).astype('i8')) < 10 ** 6),
                           'times decode to %s instead of %s' % (t, w))
                else:
                    c.close('times', t, times, 0, 0)
                    c.true(str(ds['Times'].attrs.get('units', '')).startswith('seconds since 1970-01-01'), 'times are not labelled')
                c.count('times compared')
            if decode:
                c.count('decoded')
            c.count('times labelled in the files', labelled and dims != 'neither')
            c.count('decoded times labelled in the files', labelled and decode and dims != 'neither')
        ds.close()
    finally:
        api.open_dataset = _open
    c.true(not [e for e in rec.changes()], 'reading changed files: %s' % rec.changes()[:3])
    if group:
        c.count('groups')
        if not locs_in_group:
            c.count('locations from the root')
    c.count('files', nf)
    if nf == 1:
        c.count('single file')
    c.count('stations compared', X.size)
    c.sig(nf, ranks, group, locs_in_group, style, decode, kind, dims)
    c.say(files=nf, ranks=str(ranks), group=group, stations=X.size, kind=kind)


WORKLOADS = [('mfile', mfile, 120, 2000)]
