"""Diebold-Mariano test is antisymmetric and calibrated."""
import math
import numpy as np
from scipy import stats, special
from mon import core
from PyAnEn import diebold_mariano_test

RULE = 'distinct (criterion, horizon, length class, shape, dtype) statistics compared with an independent evaluation of the definition'
REQUIRE = ['statistics compared', 'whole observations', 'long horizons', 'paired t-tests', 'swapped', 'rescaled', 'horizon above one', 'criterion MSE', 'criterion MAD',
           'criterion MAPE', 'criterion poly', 'several dimensions', 'memory layouts', 'long series', 'calibration', 'shifted', 'paired permutation', 'very small p-values']


def loss(y, p, crit, power):
    out = []
    for a, b in zip(y, p):
        e = a - b
        out.append(e * e if crit == 'MSE' else abs(e) if crit == 'MAD' else abs(e / a) if crit == 'MAPE' else e ** power)
    return out


def reference(y, p, q, h, crit, power):
    """By the definition, in exact summation."""
    n = len(y)
    d = [a - b for a, b in zip(loss(y, p, crit, power), loss(y, q, crit, power))]
    m = math.fsum(d) / n
    g = [math.fsum((d[i] - m) * (d[i - k] - m) for i in range(k, n)) / (n - k) for k in range(h)]
    V = (g[0] + 2 * math.fsum(g[1:])) / n
    if not V > (1e-9 if h < 9 else 1e-4) * g[0] / n:
        return None
    s = m / math.sqrt(V) * math.sqrt((n + 1 - 2 * h + h * (h - 1) / n) / n)
    # two-sided Student t probability with n - 1 degrees of freedom, by the incomplete beta function
    p_ = special.betainc((n - 1) / 2, .5, (n - 1) / (n - 1 + s * s))
    return s, p_


def student(s, n):
    """Two-sided probability, by the incomplete beta function."""
    return special.betainc((n - 1) / 2, .5, (n - 1) / (n - 1 + s * s))


def series(c):
    n = int(c.rng.choice([3, 4, 5, 8, 20, 60, 150, 300, 800])) if c.index % 5 else int(c.rng.integers(200, 900))
    y = c.rng.normal(5, 2, n) if c.rng.random() < .7 else c.rng.integers(1, 9, n).astype(float)
    y = np.where(np.abs(y) < .05, .5, y)
    ar = c.rng.uniform(-.3, .8)
    e = c.rng.normal(0, 1, (2, n))
    for i in range(1, n):
        e[:, i] += ar * e[:, i - 1]
    p, q = y + e[0] * c.rng.uniform(.5, 2) + c.rng.uniform(-1, 1), y + e[1]
    if c.rng.random() < .15:
        p = p + c.rng.choice([-1, 1]) * c.rng.uniform(5, 40)
    if c.rng.random() < .2:
        p, q = np.round(p), np.round(q)
    if c.rng.random() < .2 and np.all(np.round(y) != 0):
        y = np.round(y).astype(c.rng.choice([np.int64, np.int32, np.int16]))       # counts, predicted by fractions
        c.count('whole observations')
    return y, p, q


def run(c, y, p, q, **kw):
    r = c.call('diebold_mariano_test', diebold_mariano_test, y, p, q, **kw)
    c.true(len(r) == 2, 'the test returns %d values' % len(r))
    return float(r[0]), float(r[1])


def values(c):
    y, p, q = series(c)
    n = len(y)
    h = 1 if c.rng.random() < .4 else int(c.rng.integers(1, min(n - 1, 8 if c.rng.random() < .7 else 60) + 1))
    crit = ['MSE', 'MAD', 'MAPE', 'poly'][c.index % 4]
    power = int(c.rng.integers(2, 5)) if crit == 'poly' else 2
    ref = reference(y.tolist(), p.tolist(), q.tolist(), h, crit, power)
    if ref is None:
        return
    kw = {'h': h, 'crit': crit}
    if crit == 'poly':
        kw['power'] = power
    if crit == 'MSE' and c.rng.random() < .5:
        del kw['crit']
    if h == 1 and c.rng.random() < .5:
        del kw['h']
    s, pv = run(c, y, p, q, **kw)
    c.close('statistic (%s, h=%d, n=%d)' % (crit, h, n), s, ref[0], 1e-7, 1e-9)
    c.close('p-value (%s, h=%d, n=%d)' % (crit, h, n), pv, ref[1], 1e-6, 1e-12)
    # small probabilities keep their digits
    w = student(s, n)
    if w > 1e-280:
        c.close('p-value of the statistic %r (n=%d)' % (s, n), pv, w, 1e-7, 0)
        c.count('very small p-values', pv < 1e-14)
    c.count('statistics compared')
    c.count('long series', n >= 200)
    c.count('criterion ' + crit)
    if h > 1:
        c.count('horizon above one')
        c.count('long horizons', h > 9)
    if h == 1:
        t = stats.ttest_rel(loss(y, p, crit, power), loss(y, q, crit, power))
        c.close('statistic against the paired t-test', s, t.statistic, 1e-7, 1e-9)
        c.close('p-value against the paired t-test', pv, t.pvalue, 1e-6, 1e-12)
        c.count('paired t-tests')
    a, b = run(c, y, q, p, **kw)
    c.close('statistic of swapped forecasts', a, -s, 1e-9, 1e-10)
    c.close('p-value of swapped forecasts', b, pv, 1e-9, 1e-12)
    c.count('swapped')
    if crit in ('MSE', 'MAD'):
        k = float(2.0 ** c.rng.integers(-8, 9)) if c.rng.random() < .5 else float(c.rng.uniform(.01, 100))
        a, b = run(c, y * k, p * k, q * k, **kw)
        c.close('statistic of data scaled by %r' % k, a, s, 1e-6, 1e-8)
        c.close('p-value of data scaled by %r' % k, b, pv, 1e-6, 1e-9)
        c.count('rescaled')
        a, b = run(c, y + 3, p + 3, q + 3, **kw)
        c.close('statistic of shifted data', a, s, 1e-6, 1e-8)
        c.count('shifted')
    if h == 1:
        i = c.rng.permutation(n)
        a, b = run(c, y[i], p[i], q[i], **kw)
        c.close('statistic of reordered data with h=1', a, s, 1e-8, 1e-9)
        c.count('paired permutation')
    if n % 4 == 0:
        r = lambda x: x.reshape(2, 2, -1)
        a, b = run(c, r(y), r(p), r(q), **kw)
        c.close('statistic of a three-dimensional array', a, s, 1e-12, 1e-12)
        c.count('several dimensions')
        # the order of values counts, not how they are laid out in memory
        a, b = run(c, *(core.layout(c.rng, r(x)) for x in (y, p, q)), **kw)
        c.close('statistic of arrays in other memory layouts', a, s, 1e-9, 1e-10)
        c.count('memory layouts')
    c.sig(crit, h, n)
    c.say(n=n, h=h, criterion=crit, statistic=s)


def calibration(c):
    """Under equal accuracy p-values are about uniform."""
    n = int(c.rng.choice([40, 80]))
    crit = ['MSE', 'MAD'][c.index % 2]
    ps = []
    for _ in range(400):
        y = c.rng.normal(0, 1, n)
        ps.append(run(c, y, y + c.rng.normal(0, 1, n), y + c.rng.normal(0, 1, n), crit=crit)[1])
    ps = np.array(ps)
    c.true(np.all((ps >= 0) & (ps <= 1)), 'p-values outside [0, 1]')
    d = stats.kstest(ps, 'uniform').pvalue
    c.true(d > 1e-9, 'p-values of equally accurate forecasts are not uniform: p = %.2g' % d)
    c.count('calibration')
    c.sig('calibration', crit, n)


WORKLOADS = [('values', values, 600, 20000), ('calibration', calibration, 4, 40)]
_L = core.larger(WORKLOADS, ['values'], 8, 120)
WORKLOADS += _L
