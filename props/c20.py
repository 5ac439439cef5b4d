"""Files are touched only inside the configured directories."""
import os
import numpy as np
from mon import core, mk
from mon.sandbox import tree, diff
from PyAnEn.utils_approximation import Integration

RULE = ('distinct (verifier type, metric or action, way the directory is given, state of the directory) whose file-system events and '
        'directory snapshots before and after were judged')
REQUIRE = ['directories with everything', 'directories with hidden files', 'directories with links', 'directories with empty directory', 'calls without a directory', 'calls with a directory', 'calls after disabling', 'started from scratch', 'kept contents',
           'scratch file seen', 'failed integration', 'wrote inside', 'style home', 'style relative', 'style nested', 'style dotted',
           'style spaces', 'style slash', 'style variable', 'style dot', 'style link', 'style behind link', 'style odd name',
           'style trailing dot', 'style trailing space', 'low memory in argument', 'low memory in setting', 'low memory in working directory',
           'low memory in current directory', 'parallel calls']
ASSUMPTIONS = ['File-system events of worker processes of ray are judged by directory snapshots only; those of forked workers and of the '
               'main process also by the audit hook.']


class Boom(Exception):
    pass


def fill(c, d, names=('keep.txt', 'sub/deep/a.bin', 'old.pkl', '.hidden')):
    for n in names:
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(c.rng.bytes(int(c.rng.integers(0, 60))))


def run(c, v, name, kw):
    return c.call(name, getattr(v, name), **kw)


def pick(c, spec, members, n):
    p = mk.pool(c, spec, members)
    return [p[i] for i in c.rng.permutation(len(p))[:n]]


def build(c, spec, members, **kw):
    if members and spec.kind in ('gauss', 'tgauss', 'gamma', 'tgamma'):
        kw['n_sample_members'] = members
    if c.rng.random() < .3:
        kw['boot_samples'] = 5
        c.env(boot_repeats=4)
    return spec.build(**kw)


def small(c, kind):
    s = mk.make(c.rng, kind, core.shape(c.rng, nd=int(c.rng.integers(1, 4)), lo=2, hi=4), distinct=True)
    if kind == 'hurdle':
        s.kw['n_approx_bins'] = 5
    return s


def nowd(c):
    """No working directory, default settings: nothing on the file system changes."""
    kind = mk.KINDS[c.index % len(mk.KINDS)]
    spec = small(c, kind)
    members = int(c.rng.integers(2, 5))
    top = c.tmp()
    cwd = os.path.join(top, 'cwd')
    os.mkdir(cwd)
    fill(c, cwd, ('sq_error.pkl', 'cdf.pkl', '__pyanen_numerical_integration__.dat', 'x'))
    os.chdir(cwd)
    par = c.index % 9 == 8
    if par:
        c.env(tqdm_workers=2)
        spec.kw.pop('n_approx_bins', None)
        if kind == 'hurdle':
            kind = 'gamma'
            spec = small(c, 'gamma')
    v = build(c, spec, members)
    before = tree(top), tree(os.environ['HOME']), tree(os.environ['TMPDIR'])
    for name, kw in pick(c, spec, members, 3 if par else 12):
        with c.record() as r:
            run(c, v, name, kw)
        c.true(not r.changes(), '%s without a working directory changed files: %s' % (name, r.changes()[:4]))
        c.count('calls without a directory')
        c.sig('nowd', kind, name, par)
        if par:
            c.count('parallel calls')
    after = tree(top), tree(os.environ['HOME']), tree(os.environ['TMPDIR'])
    for a, b in zip(before, after):
        c.true(a == b, 'files changed without a working directory: %s' % diff(a, b))
    c.say(kind=kind, parallel=par)


STYLES = ['abs', 'home', 'relative', 'nested', 'dotted', 'spaces', 'slash', 'variable', 'dot', 'link', 'behind link', 'odd name', 'trailing dot',
          'trailing space']
ODD = ['a*b', '[wd]', '100%', 'sn\u00f6w', 'w;d', "it's", '-rf', '{x}', 'a?c', '#wd', 'a\\b', 'wd~', '~wd', 'x&y', '%s', 'wd.pkl.d']


def place(c):
    """-> (directory argument, real path, surrounding directory, style)"""
    top = c.tmp()
    style = STYLES[c.index % len(STYLES)]
    name = {'spaces': 'my dir', 'variable': 'run$PV_NAME', 'odd name': str(c.rng.choice(ODD)), 'trailing dot': 'wd.', 'trailing space': 'wd '}.get(style, 'wd')
    base = top
    arg = os.path.join(top, name)
    if style == 'home':
        base = os.path.join(os.environ['HOME'], os.path.basename(top))
        os.makedirs(base)
        c._dirs.append(base)
        arg = '~/%s/%s' % (os.path.basename(top), name)
    elif style == 'relative':
        os.chdir(top)
        arg = name
    elif style == 'nested':
        arg = os.path.join(top, 'n1', 'n2', name)
    elif style == 'dotted':
        os.mkdir(os.path.join(top, 'other'))
        arg = os.path.join(top, 'other', '..', name)
    elif style == 'slash':
        arg += '/'
    elif style == 'variable':
        os.environ['PV_NAME'] = 'precious'
    elif style == 'dot':
        # the current directory
        os.mkdir(arg)
        os.chdir(arg)
        arg = ['.', './', arg + '/.'][int(c.rng.integers(3))]
    elif style == 'link':
        os.makedirs(os.path.join(top, 'real/wd'))
        os.symlink('real/wd', arg)
    elif style == 'behind link':
        # the parent of what the link points at
        os.makedirs(os.path.join(top, 'real/there'))
        os.symlink('real/there', os.path.join(top, 'lnk'))
        arg = os.path.join(top, 'lnk', '..', name)
    elif style == 'odd name' and c.rng.random() < .5:
        os.chdir(top)
        arg = name
        if arg.startswith('~'):
            arg = './' + arg
    real = os.path.realpath(os.path.expanduser(arg))
    c.count('style ' + style)
    return arg, real, base, style


def withwd(c):
    """Construct, call, reconfigure, disable, enable again: events and snapshots stay inside."""
    kind = mk.KINDS[(c.index // len(STYLES)) % len(mk.KINDS)]
    spec = small(c, kind)
    members = int(c.rng.integers(2, 5))
    arg, real, base, style = place(c)
    # neighbours with similar names, and a link from inside to outside
    # and what the name would be if it was cut, expanded or matched
    near = ['wd2/sq_error.pkl', 'wd.pkl', 'wd_/x', 'my/x', 'precious/data.nc', 'precious/more/x', 'runprecious/sq_error.pkl', 'run/x', 'dir/x',
            'aXb/x', 'd/x', 'a_b/x', 'x/cdf.pkl', 'wd/sq_error.pkl', 'real/cdf.pkl']
    fill(c, base, [n for n in near if n.split('/')[0] != 'wd' or style not in (
        'abs', 'home', 'relative', 'dotted', 'slash', 'dot', 'link')])
    exists = os.path.isdir(real) or bool(c.rng.random() < .75)
    scratch = bool(c.rng.random() < .5)
    if exists:
        os.makedirs(real, exist_ok=True)
        held = ['everything', 'hidden files', 'hidden directory', 'empty directory', 'links', 'one file', 'nothing'][c.index // 2 % 7 if c.words.random() < .6 else 0]
        if held == 'everything':
            fill(c, real)
        if held in ('everything', 'links'):
            os.symlink(os.path.join(base, 'precious'), os.path.join(real, 'lnk'))
            os.symlink(os.path.join(base, 'precious', 'data.nc'), os.path.join(real, 'lnk.nc'))
        if held == 'hidden files':
            fill(c, real, ['.hidden', '.nfs0001'][:int(c.words.integers(1, 3))])
        if held == 'hidden directory':
            fill(c, real, ['.cache/x/y'])
        if held == 'empty directory':
            os.makedirs(os.path.join(real, 'e/f'))
        if held == 'one file':
            fill(c, real, [['keep.txt', 'cdf.pkl', 'x~'][int(c.words.integers(3))]])
        if scratch:
            c.count('directories with ' + held)
    inside0 = tree(real) if exists else {}
    parents = set()
    p = os.path.dirname(real)
    while p.startswith(base) and p != base:
        parents.add(p)
        p = os.path.dirname(p)

    def outside():
        return {k: v for k, v in tree(c.sb.root, skip=[real, os.path.join(c.sb.root, 'r')]).items()
                if os.path.join(c.sb.root, k) not in parents}

    def judge(r, what):
        for kind_, q in r.changes():
            ok = q == real or q.startswith(real + '/') or (kind_ == 'mkdir' and q in parents)
            c.true(ok, '%s touched %s (%s), outside the working directory %s' % (what, q, kind_, real))

    out0 = outside()
    with c.record() as r:
        v = c.call('construct', build, c, spec, members, working_directory=arg, start_from_scratch=scratch)
    judge(r, 'constructor')
    c.true(os.path.isdir(real), 'the working directory %s does not exist after construction' % real)
    got = tree(real)
    if scratch:
        c.true(got == {}, 'starting from scratch left %s in the working directory' % sorted(got)[:5])
        c.count('started from scratch')
        c.sig('scratch', kind, style, exists)
    else:
        c.true(got == inside0, 'start_from_scratch off changed the working directory: %s' % diff(inside0, got)[:5])
        c.count('kept contents')
        c.sig('keep', kind, style, exists)
    c.true(outside() == out0, 'construction changed files outside: %s' % diff(out0, outside())[:5])
    base_files = got
    for name, kw in pick(c, spec, members, 8):
        with c.record() as r:
            run(c, v, name, kw)
        judge(r, name)
        c.count('calls with a directory')
        c.sig('call', kind, name, style)
    got = tree(real)
    if len(got) > len(base_files):
        c.count('wrote inside')
    for k, x in base_files.items():
        c.true(got.get(k) == x, 'a metric call changed %s, which was in the directory before' % k)
    c.true(outside() == out0, 'metric calls changed files outside: %s' % diff(out0, outside())[:5])
    with c.record() as r:
        c.call('disable_saving', v.disable_saving)
        for name, kw in pick(c, spec, members, 6):
            run(c, v, name, kw)
            c.count('calls after disabling')
    c.true(not r.changes(), 'files were changed after disabling saving: %s' % r.changes()[:4])
    c.true(tree(real) == got, 'disabling saving changed the directory: %s' % diff(got, tree(real))[:5])
    again = bool(c.rng.random() < .5)
    with c.record() as r:
        c.call('enable_saving', v.enable_saving, arg, again)
    judge(r, 'enable_saving')
    c.true(tree(real) == ({} if again else got), 'enable_saving(start_from_scratch=%s): %s' % (again, diff({} if again else got, tree(real))[:5]))
    with c.record() as r:
        for name, kw in pick(c, spec, members, 4):
            run(c, v, name, kw)
    judge(r, 'calls after enabling again')
    c.true(outside() == out0, 'files outside changed: %s' % diff(out0, outside())[:5])
    c.say(kind=kind, style=style, argument=arg, existed=exists, scratch=scratch)


class Spy:
    """Verifier class whose probabilities look at the directories and may fail at the k-th evaluation."""
    @staticmethod
    def of(cls, look, fail_at):
        n = [0]

        def see(self, t):
            n[0] += 1
            look()
            if fail_at is not None and n[0] >= fail_at:
                raise Boom('injected')
        return mk.watched(cls, see)


def lowmem(c):
    """Where the scratch file of low-memory integration lives, and that it goes away."""
    kind = ['gauss', 'hurdle', 'ens', 'gamma', 'tgauss'][c.index % 5]
    spec = small(c, kind)
    how = ['argument', 'setting', 'working directory', 'current directory'][(c.index // 2) % 4]
    if kind == 'hurdle' and how == 'argument':
        kind = 'gamma'
        spec = small(c, kind)
    fail = [None, 1, 2, 4][int(c.rng.integers(4))] if c.index % 3 else None
    top = c.tmp()
    dirs = {k: os.path.join(top, k.replace(' ', '_')) for k in ('argument', 'setting', 'working directory', 'current directory')}
    for d in dirs.values():
        os.mkdir(d)
        fill(c, d)
    os.chdir(dirs['current directory'])
    level = ['argument', 'setting', 'working directory', 'current directory'].index(how)
    kw = dict(spec.kw)
    if level <= 2 and (how == 'working directory' or c.rng.random() < .5):
        kw.update(working_directory=dirs['working directory'], start_from_scratch=False)
    if level <= 1 and (how == 'setting' or c.rng.random() < .5):
        d = dirs['setting']
        if c.rng.random() < .4:
            h = os.path.join(os.environ['HOME'], 'memmap%d' % c.index)
            os.mkdir(h)
            c._dirs.append(h)
            dirs['setting'] = h
            d = '~/memmap%d' % c.index
        c.env(integrate_wdir=d)
    seen = []

    def listing():
        return {(k, n) for k, d in dirs.items() for n in os.listdir(d) if not n.endswith('.pkl')}

    start = listing()
    cls = Spy.of(mk.CLS[spec.kind], lambda: seen.append(listing() - start), fail)
    if spec.kind == 'ens':
        kw['ensemble_axis'] = spec.ax
    if spec.kind in ('tgauss',):
        kw['truncated'] = True
    v = cls(spec.f, spec.o, **kw)
    what = ['mean', 'variance', 'crps'][int(c.rng.integers(3))]
    if spec.kind == 'hurdle' and how != 'argument':
        c.env(integrate_with_less_memory='True')
        fn = {'mean': v.f_determ, 'variance': v.variance, 'crps': v.crps}[what]
    else:
        opt = {}
        if how == 'argument':
            opt['memmap_dir'] = dirs['argument']
        if c.rng.random() < .5:
            opt['less_memory'] = True
        else:
            c.env(integrate_with_less_memory='True')
        fn = getattr(Integration(v, nbins=6, **opt), what)
    before = {k: x for k, x in tree(c.sb.root, skip=[os.path.join(c.sb.root, 'r')]).items()}
    with c.record() as r:
        if fail is None:
            c.call('integrate ' + what, fn)
        else:
            e = c.raises('failing integrate ' + what, fn)
            c.true(isinstance(e, Boom), 'a failing integration raised %r instead of the error of the forecast' % e)
            c.count('failed integration')
    c.true(len(seen) > 0, 'no probabilities were evaluated')
    for s in seen:
        c.true(len(s) == 1 and list(s)[0][0] == how,
               'scratch files during integration: %s, expected one in %s' % (sorted(s), how))
    c.count('scratch file seen', len(seen))
    c.count('low memory in ' + how)
    after = tree(c.sb.root, skip=[os.path.join(c.sb.root, 'r')])
    allowed = os.path.relpath(dirs['working directory'], c.sb.root) + os.sep
    left = [x for x in diff(before, after) if not ('working_directory' in kw and x.startswith(allowed) and '.pkl' in x and 'vanished' not in x)]
    c.true(not left, 'after %s integration: %s' % ('a failed' if fail else 'an', left[:5]))
    inside = (dirs[how] + '/',) + ((dirs['working directory'] + '/',) if 'working_directory' in kw else ())
    for k, q in r.changes():
        c.true(q.startswith(inside), 'integration touched %s (%s)' % (q, k))
    c.sig('lowmem', kind, how, what, fail)
    c.say(kind=kind, where=how, what=what, fails_at=fail)


WORKLOADS = [('nowd', nowd, 45, 600), ('withwd', withwd, 112, 1400), ('lowmem', lowmem, 80, 1200)]
