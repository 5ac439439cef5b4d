"""Printed descriptions show the state in effect."""
import ast
import contextlib
import functools
import io
import os
import numpy as np
import PyAnEn
from mon import core, mk

RULE = 'distinct (verifier type, setting, how it was given: constructor or setter) that were found in the printed description'
REQUIRE = ['descriptions printed', 'shapes found', 'averaging axes found', 'resamples found', 'directories found', 'member axes found',
           'collapse functions found', 'members to sample found', 'truncation found', 'after setters', 'partial functions',
           'settings printed', 'settings restored', 'data untouched']


def spread_of(f, axis):
    return f.max(axis=axis) - f.min(axis=axis)


def mean(f, axis):
    return f.max(axis=axis)


def trimmed_mean(f, axis):
    return f.mean(axis=axis)


class Callable:
    def __call__(self, f, axis):
        return f.mean(axis=axis)


FUNCS = [trimmed_mean, mean, np.nanmean, np.nanmedian, np.mean, np.median, np.max, spread_of, functools.partial(np.quantile, q=.25), functools.partial(np.mean), Callable(), lambda f, axis: f.min(axis=axis)]


def value_of(c, text, label, what):
    """The value shown behind an attribute name in parentheses, which is how settings are listed."""
    lines = [l for l in text.splitlines() if '(%s)' % label in l]
    c.true(len(lines) == 1, 'the description names %s %d times instead of once:\n%s' % (label, len(lines), text))
    return lines[0].split('(%s)' % label, 1)[1].lstrip(': ').strip()


def expect(c, v, shown, how):
    before = [(n, np.array(a)) for n, a in c.spec.arrays()]
    text = c.call('repr', repr, v)
    c.true(text == c.call('str', str, v), 'str and repr differ')
    c.count('descriptions printed')
    c.true(type(v).__name__ in text, 'the description does not name the class:\n%s' % text)
    plain = not isinstance(c.spec.f, dict) or isinstance(c.spec.container(), dict)
    shapes = [np.shape(a) for _, a in c.spec.arrays()] if plain else [c.spec.o.shape]
    for s in set(shapes):
        c.true(text.count(str(s)) >= shapes.count(s), 'the description shows shape %s %d times instead of %d:\n%s' % (s, text.count(str(s)), shapes.count(s), text))
        c.count('shapes found')
    if isinstance(c.spec.f, dict) and plain:
        for k in c.spec.f:
            c.true(k in text, 'the description does not name the parameter %s:\n%s' % (k, text))
    names = {'avg_axis': 'averaging axes', 'boot_samples': 'resamples', 'working_directory': 'directories', 'ensemble_axis': 'member axes',
             'n_sample_members': 'members to sample', 'truncated': 'truncation', 'ensemble_collapse_func': 'collapse functions'}
    for k, x in shown.items():
        got = value_of(c, text, k, x)
        if k == 'ensemble_collapse_func':
            want = getattr(x, '__name__', None)
            c.true(got == want if want else got != '', 'the description shows collapse function %r instead of %r' % (got, want))
            c.count('partial functions', want is None)
        else:
            c.true(got == str(x), 'the description shows %s %r instead of %r (%s)' % (k, got, str(x), how))
        if k in names:
            c.count(names[k] + ' found')
        c.sig(c.spec.kind, k, how)
    for (n, a), (_, b) in zip(before, c.spec.arrays()):
        c.true(np.array_equal(a, b, equal_nan=True), 'printing changed %s' % n)
    c.count('data untouched')


def often(c, usual, n):
    """Now and then the value that a setting has by default, or that some default in the code has."""
    return int(c.words.choice(usual)) if c.words.random() < .3 else n


def norm(ax):
    return ax if ax is None else (ax,) if isinstance(ax, int) else tuple(ax)


def describe(c):
    kind = mk.KINDS[c.index % 7]
    nd = int(c.rng.integers(1, 5))
    spec = c.spec = mk.make(c.rng, kind, core.shape(c.rng, nd, 1, 6, 200), distinct=True)
    kw = {}
    if c.rng.random() < .7:
        kw['avg_axis'] = core.axes(c.rng, nd)
    if c.rng.random() < .5:
        kw['boot_samples'] = often(c, [300, 1000, 1, 100], int(10 ** c.rng.uniform(0, 7)))
    if c.rng.random() < .5:
        kw['working_directory'] = os.path.join(c.tmp(), 'my results', 'run%d' % c.index)
        if c.rng.random() < .5:
            kw['start_from_scratch'] = bool(c.rng.random() < .5)
    if kind == 'ens':
        if c.rng.random() < .7:
            kw['ensemble_collapse_func'] = FUNCS[int(c.rng.integers(len(FUNCS)))]
    elif kind != 'determ':
        if c.rng.random() < .6:
            kw['n_sample_members'] = often(c, [15, 1, 10, 100, 300], int(10 ** c.rng.uniform(0, 6)))
        if c.rng.random() < .4:
            kw['clip_member_to_zero'] = float(c.rng.choice([0., .1, 3.]))
        if c.rng.random() < .5:
            kw['move_sampled_ens_axis'] = int(c.rng.integers(-nd - 1, nd + 1))
        if c.rng.random() < .5:
            kw['pit_randomize_zero_ranks'] = bool(c.rng.random() < .5)
    v = c.call('construct', spec.build, **kw)
    shown = {'avg_axis': None, 'boot_samples': None, 'working_directory': None, 'start_from_scratch': True}
    if kind == 'ens':
        shown.update(ensemble_axis=spec.ax, ensemble_collapse_func=np.mean)
    elif kind != 'determ':
        shown.update(n_sample_members=None, move_sampled_ens_axis=-1, truncated=kind in ('tgauss', 'tgamma'), pit_randomize_zero_ranks=True)
    shown.update(kw)
    shown.pop('clip_member_to_zero', None)
    shown['avg_axis'] = norm(shown['avg_axis'])
    expect(c, v, shown, 'constructor')
    for _ in range(6):
        k = c.rng.choice(['avg_axis', 'boot_samples', 'disable_boot', 'saving', 'no saving', 'collapse', 'members', 'move', 'truncation', 'metric', 'clip'])
        if k == 'avg_axis':
            ax = core.axes(c.rng, nd)
            v = c.call('set_avg_axis', v.set_avg_axis, ax)
            shown['avg_axis'] = norm(ax)
        elif k == 'boot_samples':
            shown['boot_samples'] = often(c, [300, 1000, 1, 100], int(10 ** c.rng.uniform(0, 7)))
            v = c.call('set_boot_samples', v.set_boot_samples, shown['boot_samples'])
        elif k == 'disable_boot':
            v, shown['boot_samples'] = c.call('disable_boot', v.disable_boot), None
        elif k == 'saving':
            shown['working_directory'], shown['start_from_scratch'] = os.path.join(c.tmp(), 'x'), bool(c.rng.random() < .5)
            v = c.call('enable_saving', v.enable_saving, shown['working_directory'], shown['start_from_scratch'])
        elif k == 'no saving':
            v, shown['working_directory'] = c.call('disable_saving', v.disable_saving), None
        elif k == 'collapse' and kind == 'ens':
            shown['ensemble_collapse_func'] = FUNCS[int(c.rng.integers(len(FUNCS)))]
            v = c.call('set_collapse_func', v.set_collapse_func, shown['ensemble_collapse_func'])
        elif k == 'members' and kind not in ('ens', 'determ'):
            shown['n_sample_members'] = often(c, [15, 1, 10, 100, 300], int(10 ** c.rng.uniform(0, 6)))
            v = c.call('set_ensemble_members', v.set_ensemble_members, shown['n_sample_members'])
        elif k == 'move' and kind not in ('ens', 'determ'):
            shown['move_sampled_ens_axis'] = int(c.rng.integers(-nd - 1, nd + 1))
            v = c.call('set_move_sampled_ens_axis', v.set_move_sampled_ens_axis, shown['move_sampled_ens_axis'])
        elif k == 'truncation' and kind in ('gauss', 'tgauss', 'gamma', 'tgamma'):
            shown['truncated'] = bool(c.rng.random() < .5)
            v = c.call('set_truncation', v.set_truncation, shown['truncated'])
        elif k == 'clip' and kind not in ('ens', 'determ'):
            v = c.call('set_member_clip', v.set_member_clip, None if c.rng.random() < .3 else float(c.rng.choice([0., .1, 3.])))
        elif k == 'metric' and kind != 'hurdle':
            v.f_determ()
        else:
            continue
        expect(c, v, shown, 'setter')
        c.count('after setters')
    c.say(kind=kind, shape=spec.o.shape)


def settings(c):
    vals = {}
    for k, d in PyAnEn.Defaults.items():
        if c.rng.random() < .5:
            x = {'pyanen_integrate_wdir': '/data/my run/x=1', 'pyanen_ens_to_prob_method': 'kde', 'pyanen_kde_kernel': 'tophat'}.get(k)
            if x is None:
                x = str(bool(c.rng.random() < .5)) if isinstance(d, bool) else str(float(c.rng.uniform(0, 1))) if isinstance(d, float) else str(int(c.rng.integers(1, 999)))
            os.environ[k] = vals[k] = x
    want = {k: os.environ[k] for k in PyAnEn.Defaults}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        c.call('print_settings', PyAnEn.print_settings)
    text = out.getvalue()
    c.true({k: os.environ[k] for k in PyAnEn.Defaults} == want, 'printing settings changed them')

    class FakeOS:
        environ = {}
    try:
        exec(compile(ast.parse(text), 'settings', 'exec'), {'os': FakeOS, 'import': None})
    except Exception as e:
        c.fail('the printed settings cannot be executed: %s\n%s' % (e, text))
    for k, x in want.items():
        c.true(FakeOS.environ.get(k) == x, 'the printed settings give %s=%r instead of %r' % (k, FakeOS.environ.get(k), x))
        c.count('settings restored')
    c.count('settings printed')
    c.sig('settings', sorted(vals))


WORKLOADS = [('describe', describe, 140, 2500), ('settings', settings, 20, 300)]
