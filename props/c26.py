"""Reading a dataset preserves data and decodes names and times."""
import os
import warnings
import numpy as np
import xarray as xr
import netCDF4
from mon import core
from mon.sandbox import tree
from PyAnEn.IO import open_dataset
from PyAnEn.Grid import read_station_coordinates

RULE = 'distinct (kind of file, group, decoding, subset of variables, sizes) datasets compared variable by variable with what was written'
REQUIRE = ['variables compared', 'times with a unit in the file', 'names compared', 'coordinates compared', 'times labelled', 'times decoded', 'renamed test times',
           'kept test times', 'groups', 'station coordinates', 'names of different length', 'missing optional variables', 'empty names',
           'root', 'search times', 'variables with other names',
           'variables with fill value or scale factor']
COORD = {'num_flts': 'FLTs', 'num_parameters': 'ParameterNames', 'num_test_times': 'test_times', 'num_search_times': 'search_times',
         'num_times': 'Times'}
TIMES = ('test_times', 'search_times', 'Times')
PACKED = {'packed': (-9, .5), 'marked': (9999., None)}      # fill value and scale factor


def names(c, n, w):
    out = []
    for i in range(n):
        k = int(c.rng.integers(0 if c.rng.random() < .1 else 1, w + 1))
        s = ''.join(c.rng.choice(list('abcdefgXYZ0123456789_-. ()')) for _ in range(k)).rstrip(' ')
        if len(s) == 0:
            c.count('empty names')
        out.append(s)
    return out


def generate(c, kind):
    """-> {name: (dims, values)}; char matrices as lists of strings under dims (dim, 'num_chars')"""
    rng = c.rng
    nw = int(rng.integers(1, 25))
    dims = {k: int(rng.integers(1, 6)) for k in ('num_stations', 'num_times', 'num_flts', 'num_parameters', 'num_test_times',
                                                 'num_search_times', 'num_analogs')}
    dims['num_chars'] = nw
    V = {}
    st = dims['num_stations']
    V['Xs'] = (('num_stations',), np.round(rng.uniform(-180, 180, st), 3))
    V['Ys'] = (('num_stations',), rng.uniform(-90, 90, st))
    if rng.random() < .6:
        V['StationNames'] = (('num_stations', 'num_chars'), names(c, st, nw))
    V['FLTs'] = (('num_flts',), np.cumsum(rng.integers(0, 7200, dims['num_flts'])).astype(rng.choice(['f8', 'i4', 'i8'])))
    base = int(rng.integers(0, 2 * 10 ** 9))
    tt = rng.choice(['f8', 'i8'])
    mkt = lambda n: (base + rng.permutation(10 ** 6)[:n] * int(rng.choice([1, 60, 3600]))).astype(tt)
    if kind in ('forecast', 'observation'):
        V['Times'] = (('num_times',), mkt(dims['num_times']))
        V['ParameterNames'] = (('num_parameters', 'num_chars'), names(c, dims['num_parameters'], nw))
        if kind == 'forecast':
            d = ('num_flts', 'num_times', 'num_stations', 'num_parameters')
        else:
            d = ('num_times', 'num_stations', 'num_parameters')
            del V['FLTs']
        V['Data'] = (d, rng.normal(0, 10, [dims[x] for x in d]).astype(rng.choice(['f8', 'f4'])))
        if rng.random() < .4:
            V['ParameterCirculars'] = (('num_parameters', 'num_chars'), names(c, dims['num_parameters'], nw))
    else:
        V['test_times'] = (('num_test_times',), mkt(dims['num_test_times']))
        V['search_times'] = (('num_search_times',), mkt(dims['num_search_times']))
        d = ('num_analogs', 'num_flts', 'num_test_times', 'num_stations')
        V['analogs'] = (d, rng.normal(0, 10, [dims[x] for x in d]))
        V['analogsTimeIndex'] = (d, rng.integers(0, 1000, [dims[x] for x in d]))
        if kind == 'both':
            V['Times'] = (('num_times',), mkt(dims['num_times']))
            V['Obs'] = (('num_times', 'num_stations'), rng.normal(0, 1, (dims['num_times'], st)))
    if rng.random() < .3:
        a = rng.normal(0, 1, st)
        a[rng.random(st) < .4] = np.nan
        V['extra'] = (('num_stations',), a)
    if rng.random() < .4:
        # other variables have names of their own
        for n in c.words.permutation(['Name', 'name', 'Elevation', 'values', 'time', 'units', 'Forecasts', 'std', 'index', 'x', 'y', 'bounds', 'crs'])[:3]:
            V[str(n)] = (('num_stations',), rng.normal(0, 1, st))
            c.count('variables with other names')
    if c.words.random() < .4:
        V['packed'] = (('num_stations',), c.words.choice([-9, -1, 0, 1, 7, 300], st).astype('i2'))
        V['marked'] = (('num_stations',), c.words.choice([9999., -1.5, 0, 2], st))
        c.count('variables with fill value or scale factor', 2)
    # any subset of the optional variables
    for n in list(V):
        if n not in ('Data', 'analogs', 'Xs', 'Ys') and rng.random() < .15:
            del V[n]
            c.count('missing optional variables')
    used = {x for d, _ in V.values() for x in d}
    return {k: v for k, v in dims.items() if k in used}, V


def write(c, path, dims, V, group, inherit):
    ds = netCDF4.Dataset(path, 'w', format='NETCDF4')
    g = ds.createGroup(group) if group else ds
    if group:
        # something else in the root, which must not leak into the group
        ds.createDimension('num_stations_root', 2)
        r = ds.createVariable('Xs', 'f8', ('num_stations_root',))
        r[:] = [111., 222.]
    home = ds if inherit else g
    for k, n in dims.items():
        home.createDimension(k, n)
    order = list(V)
    order = [order[i] for i in c.rng.permutation(len(order))]
    for n in order:
        d, a = V[n]
        if d[-1] == 'num_chars':
            w = dims['num_chars']
            m = np.zeros((len(a), w), 'S1')
            for i, s in enumerate(a):
                for j, ch in enumerate(s):
                    m[i, j] = ch.encode()
            v = g.createVariable(n, 'S1', d)
            v[:] = m
        else:
            v = g.createVariable(n, a.dtype.str[1:], d, fill_value=PACKED.get(n, (None,))[0])
            if n in PACKED:
                v.set_auto_maskandscale(False)
                if PACKED[n][1]:
                    v.scale_factor = PACKED[n][1]
            v[:] = a
            if n in TIMES and c.rng.random() < .3:
                v.units = ['seconds since 1970-01-01 00:00:00', 's', 'seconds', 'unix time'][int(c.words.integers(4))]
                c.count('times with a unit in the file')
    ds.close()


def epoch(a):
    return np.datetime64('1970-01-01', 'ns') + (np.asarray(a).astype('i8') * 10 ** 9).astype('timedelta64[ns]')


def moments(g, a):
    """Equal times, up to the rounding of a floating point number of nanoseconds."""
    g = np.asarray(g)
    return g.dtype.kind == 'M' and g.shape == a.shape and \
        bool(np.all(np.abs((g.astype('datetime64[ns]') - epoch(a)).astype('i8')) < 10 ** 6))


def judge(c, ds, dims, V, decode):
    rename = 'num_times' not in dims and 'num_test_times' in dims
    R = lambda d: 'num_times' if (rename and d == 'num_test_times') else d
    if 'num_test_times' in dims:
        c.count('renamed test times' if rename else 'kept test times')
    for n, (d, a) in V.items():
        c.true(n in ds.variables, 'variable %s of the file is missing' % n)
        got = ds[n]
        if d[-1] == 'num_chars':
            c.true(got.dims == (R(d[0]),), '%s has dimensions %s' % (n, got.dims))
            g = [str(x) for x in got.values.tolist()]
            c.true(g == list(a), '%s reads %s instead of %s' % (n, g[:4], list(a)[:4]))
            c.count('names compared', len(a))
            if len({len(s) for s in a}) > 1:
                c.count('names of different length')
        else:
            c.true(got.dims == tuple(R(x) for x in d), '%s has dimensions %s instead of %s' % (n, got.dims, tuple(R(x) for x in d)))
            if decode and n in TIMES:
                c.true(moments(got.values, a), '%s decodes to %s instead of %s' % (
                    n, got.values[:3], epoch(a)[:3]))
                c.count('times decoded', a.size)
            elif decode and n in PACKED:
                pass        # decoding may replace stored values by what they stand for
            else:
                c.true(got.dtype == a.dtype, '%s has type %s instead of %s' % (n, got.dtype, a.dtype))
                c.true(np.array_equal(got.values, a, equal_nan=a.dtype.kind == 'f'), 'values of %s differ from the file' % n)
                if n in TIMES:
                    c.true(str(got.attrs.get('units', '')).startswith('seconds since 1970-01-01'), '%s is labelled %r' % (n, got.attrs.get('units')))
                    c.count('times labelled')
        c.count('variables compared')
    known = set(V) | {R(k) for k in COORD}
    more = [n for n in ds.variables if n not in known]
    c.true(not more, 'variables that are not in the file: %s' % more)
    for k, n in COORD.items():
        if k in dims and n in V:
            kk = R(k)
            c.true(kk in ds.coords and ds[kk].dims == (kk,), '%s is no coordinate of its dimension' % n)
            g, a = ds[kk].values, V[n][1]
            if n == 'ParameterNames':
                c.true([str(x) for x in g.tolist()] == list(a), 'coordinate %s: %s' % (kk, g[:3]))
            elif n in TIMES and decode:
                c.true(moments(g, a), 'coordinate %s decodes to %s instead of %s' % (kk, g[:3], epoch(a)[:3]))
                if n == 'search_times':
                    c.count('search times')
            else:
                c.true(np.array_equal(g, a), 'coordinate %s: %s instead of %s' % (kk, g[:3], a[:3]))
                if n in TIMES:
                    c.true(str(ds[kk].attrs.get('units', '')).startswith('seconds since 1970-01-01'), 'coordinate %s is labelled %r' % (
                        kk, ds[kk].attrs.get('units')))
            c.count('coordinates compared')


def reading(c):
    kind = ['forecast', 'observation', 'analogs', 'both'][c.index % 4]
    dims, V = generate(c, kind)
    group = None if c.rng.random() < .5 else str(c.rng.choice(['Forecasts', 'Observations', 'Analogs', 'a/b']))
    path = os.path.join(c.tmp(), 'f.nc')
    write(c, path, dims, V, group, bool(group) and c.rng.random() < .4)
    if group:
        c.count('groups')
    else:
        c.count('root')
    before = open(path, 'rb').read()
    decode = bool(c.rng.random() < .5)
    kw = {}
    if group:
        kw['group'] = group
    if decode or c.rng.random() < .3:
        kw['decode'] = decode
    with c.record() as r:
        ds = c.call('open_dataset', open_dataset, path, **kw)
        judge(c, ds, dims, V, decode)
    ds.close()
    c.true(not r.changes(), 'reading changed files: %s' % r.changes()[:3])
    c.true(open(path, 'rb').read() == before, 'reading changed the file')
    x, y = c.call('read_station_coordinates', read_station_coordinates, path, **({'group': group} if group else {}))
    c.true(np.array_equal(x, V['Xs'][1]) and np.array_equal(y, V['Ys'][1]), 'station coordinates differ from the file')
    c.count('station coordinates', len(x))
    if 'extra' in V:
        x, y = c.call('read_station_coordinates', read_station_coordinates, path, group, 'Ys', 'extra')
        c.true(np.array_equal(x, V['Ys'][1]) and np.array_equal(y, V['extra'][1], equal_nan=True), 'station coordinates of other variables differ')
    c.sig(kind, group, decode, sorted(V), sorted(dims))
    c.say(kind=kind, group=group, decode=decode, dimensions=str(dims))


WORKLOADS = [('reading', reading, 240, 4000)]
