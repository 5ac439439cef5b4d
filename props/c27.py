"""A written matrix can be read back exactly."""
import os
import re
import warnings
import numpy as np
from mon import core
from mon.sandbox import tree
from PyAnEn.Grid import write_matrix

RULE = 'distinct (dtype, shape class, kinds of special values, state of the target file) files read back value by value'
REQUIRE = ['values read back', 'missing values', 'infinite values', 'extreme values', 'integer matrices', 'existing file refused',
           'existing file overwritten', 'single row', 'single column', 'longer file overwritten', 'float32 matrices', 'negative zeros']
ASSUMPTIONS = ['Numbers may be written in any notation that Python and numpy read back to the same value of the same type.']


def read(text, c):
    """Independent reader of the documented format."""
    m = re.match(r'\s*\[\s*(\d+)\s*,\s*(\d+)\s*\]\s*\n(.*)\Z', text, re.S)
    c.true(m is not None, 'the first line does not hold the dimensions: %r' % text[:60])
    nr, nc = int(m.group(1)), int(m.group(2))
    body = m.group(3).strip()
    c.true(body.startswith('(') and body.endswith(')'), 'the rows are not parenthesized: %r' % body[:40])
    lines = [x.strip() for x in body[1:-1].split('\n') if x.strip()]
    rows = []
    for ln in lines:
        r = re.match(r'^\((.*)\),?$', ln)
        c.true(r is not None, 'a line is not one parenthesized row: %r' % ln[:80])
        rows.append([] if not r.group(1).strip() else [x.strip() for x in r.group(1).split(',')])
    c.true(len(rows) == nr, '%d rows instead of the %d announced' % (len(rows), nr))
    for r in rows:
        c.true(len(r) == nc, 'a row of %d values instead of the %d announced' % (len(r), nc))
    return nr, nc, rows


def matrix(c):
    shp = (int(c.rng.integers(1, 9)), int(c.rng.integers(1, 9)))
    if c.rng.random() < .05:
        shp = (int(c.rng.integers(50, 120)), int(c.rng.integers(1, 30)))
    if c.rng.random() < .15:
        shp = (1, shp[1]) if c.rng.random() < .5 else (shp[0], 1)
    dt = [np.float64, np.float32, np.int64, np.int32, np.uint8, np.float16, bool][int(c.rng.choice(7, p=[.45, .2, .1, .1, .05, .05, .05]))]
    if np.issubdtype(dt, np.floating):
        a = c.rng.normal(0, 1, shp)
        if c.rng.random() < .5:
            a = a * 10.0 ** c.rng.integers(-4 if dt == np.float16 else -30, 4 if dt == np.float16 else 30, shp)
            c.count('extreme values')
        a = a.astype(dt)
        u = c.rng.random(shp)
        if c.rng.random() < .3:
            a = np.where(u < .2, dt(np.nan), a).astype(dt)
        if c.rng.random() < .2:
            a = np.where(u > .9, dt(np.inf), np.where(u > .8, dt(-np.inf), a)).astype(dt)
        if c.rng.random() < .2:
            a = np.where((u > .3) & (u < .4), dt(-0.), a).astype(dt)
            c.count('negative zeros', (np.signbit(a) & (a == 0)).sum())
        if c.rng.random() < .15:
            fi = np.finfo(dt)
            a.flat[0] = [fi.max, fi.min, fi.tiny, fi.smallest_subnormal, 1 + fi.eps, -fi.eps][int(c.rng.integers(6))]
        if c.rng.random() < .2:
            a = np.round(a)
        if dt == np.float32:
            c.count('float32 matrices')
    elif dt == bool:
        a = c.rng.random(shp) < .5
    else:
        i = np.iinfo(dt)
        a = c.rng.integers(i.min, i.max, shp, dtype=dt, endpoint=True) if c.rng.random() < .4 else c.rng.integers(0, 100, shp).astype(dt)
        c.count('integer matrices')
    return core.layout(c.rng, a)


def value(s, dt):
    if dt == bool:
        return {'True': True, 'False': False}[s]
    return dt.type(int(s)) if np.issubdtype(dt, np.integer) else dt.type(s)


def check(c, path, a):
    with open(path) as f:
        text = f.read()
    nr, nc, rows = read(text, c)
    c.true((nr, nc) == a.shape, 'dimensions %s instead of %s' % ((nr, nc), a.shape))
    for i in range(nr):
        for j in range(nc):
            s, w = rows[i][j], a[i, j]
            try:
                g = value(s, a.dtype)
            except Exception:
                c.fail('value %r at (%d, %d) cannot be read' % (s, i, j))
            if a.dtype != bool and np.isnan(w):
                c.true(s == 'nan', 'missing value written as %r' % s)
                c.count('missing values')
            else:
                c.true(g == w and (a.dtype.kind != 'f' or np.signbit(g) == np.signbit(w)),
                       'value %r at (%d, %d) reads back as %r instead of %r' % (s, i, j, g, w))
                if a.dtype.kind == 'f' and np.isinf(w):
                    c.count('infinite values')
            c.count('values read back')


def roundtrip(c):
    a = matrix(c)
    d = c.tmp()
    path = os.path.join(d, 'grid with space.txt' if c.rng.random() < .2 else 'grid.txt')
    state = ['absent', 'refuse', 'overwrite', 'overwrite-long', 'overwrite-absent'][int(c.rng.integers(5))]
    keep = a.copy()
    if state == 'refuse':
        old = c.rng.bytes(int(c.rng.integers(0, 50)))
        with open(path, 'wb') as f:
            f.write(old)
        st = os.stat(path)
        c.raises('write_matrix on an existing file', write_matrix, path, a)
        c.true(open(path, 'rb').read() == old, 'an existing file was changed')
        c.true(os.stat(path).st_mtime_ns == st.st_mtime_ns, 'an existing file was written')
        c.raises('write_matrix on an existing file', write_matrix, path, a, overwrite=False)
        c.true(open(path, 'rb').read() == old, 'an existing file was changed')
        c.count('existing file refused')
    else:
        if state.startswith('overwrite') and state != 'overwrite-absent':
            n = 20000 if state == 'overwrite-long' else 5
            with open(path, 'w') as f:
                f.write('9' * n)
            c.count('longer file overwritten' if n > 5 else 'existing file overwritten')
        with c.record() as r:
            ok = c.call('write_matrix', write_matrix, path, a, **({'overwrite': True} if state != 'absent' else {}))
        c.true(ok, 'write_matrix returned %r' % ok)
        for k, q in r.changes():
            c.true(q.startswith(os.path.realpath(d) + '/'), 'write_matrix touched %s' % q)
        check(c, path, a)
        if c.rng.random() < .3:
            b = matrix(c)
            c.raises('write_matrix again', write_matrix, path, b)
            check(c, path, a)
            c.call('write_matrix again', write_matrix, path, b, overwrite=True)
            check(c, path, b)
            c.count('existing file overwritten')
        c.true(sorted(tree(d)) == [os.path.basename(path)], 'other files were left: %s' % sorted(tree(d)))
    c.true(np.array_equal(a, keep, equal_nan=a.dtype.kind == 'f'), 'the matrix was modified')
    if a.shape[0] == 1:
        c.count('single row')
    if a.shape[1] == 1:
        c.count('single column')
    c.sig(a.dtype, a.shape, state)
    c.say(dtype=str(a.dtype), shape=a.shape, state=state)


WORKLOADS = [('roundtrip', roundtrip, 500, 10000)]
