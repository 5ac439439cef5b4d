"""Interrupted or concurrent saving never corrupts a later run."""
import os
import pickle
import random
import resource
import signal
import time
import numpy as np
from mon import core, mk
from mon.core import Inconclusive

LEVEL = 'fault_enumeration'
RULE = ('distinct (verifier type, kind of fault, point of the fault: number of the file-system event or byte of the file) after '
        'which a resuming verifier was compared with one that saves nothing; and concurrent histories')
REQUIRE = ['killed before an event', 'killed in the middle of a file', 'failed in the middle of a file', 'failed event', 'resumed metrics',
           'concurrent processes', 'concurrent creation', 'constructions while others save', 'concurrent low-memory integrations', 'reader during write', 'kills at random times', 'events enumerated']
ASSUMPTIONS = ['A crash loses no data that a completed system call has written (process crash, not power loss).']


def metrics(kind, o):
    t = float(np.median(o))
    if kind == 'determ':
        return [('error', {}), ('sq_error', {}), ('ab_error', {}), ('f_determ', {}), ('iou_determ', {'over': t})]
    m = [('sq_error', {}), ('variance', {}), ('cdf', {'below': t}), ('brier', {'over': t}), ('reliability', {'nbins': 4, 'below': t}),
         ('binned_spread_skill', {'nbins': 2}), ('iou_prob', {'over': (t, .5), 'below': (None, None)})]
    if kind == 'ens':
        m += [('crps', {}), ('spread', {}), ('rank_hist', {})]
    elif kind == 'hurdle':
        m += [('crps', {}), ('f_determ', {})]
    else:
        m += [('rank_hist', {})] + ([('crps', {})] if kind != 'tgamma' else [])
    return m


def spec_for(c, kind):
    shp = (5, 4)
    s = mk.make(c.rng, kind, shp, distinct=True)
    if kind == 'hurdle':
        s.kw = {'integration_range': (-1., 30.), 'n_approx_bins': 4}
    return s


def child(c, fn):
    """Run fn in a forked process; -> wait status."""
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(60)
            fn()
            os._exit(0)
        except BaseException:
            os._exit(7)
    _, st = os.waitpid(pid, 0)
    return st


def work(c, spec, wd, ms, hook=None, limit=None, ignore=False):
    c.sb.hook_fn = hook
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN if ignore else signal.SIG_DFL)
    if limit is not None:
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
    v = spec.build(working_directory=wd, start_from_scratch=False)
    for n, k in ms:
        try:
            getattr(v, n)(**k)
        except OSError:
            if not ignore:
                raise


def resume(c, spec, wd, ms, what):
    v = c.call('construct after ' + what, spec.build, working_directory=wd, start_from_scratch=False)
    plain = spec.build()
    for n, k in ms:
        c.close_tree('%s after %s' % (n, what), c.call(n + ' after ' + what, getattr(v, n), **k), getattr(plain, n)(**k), 1e-10, 1e-12)
        c.count('resumed metrics')
    # what the resuming run saved is sound, too
    w = c.call('construct again', spec.build, working_directory=wd, start_from_scratch=False)
    for n, k in ms:
        c.close_tree('%s once more after %s' % (n, what), c.call(n, getattr(w, n), **k), getattr(plain, n)(**k), 1e-10, 1e-12)


def count_events(c, spec, ms):
    """Number of file-system events of an undisturbed run, and size of the largest file."""
    wd = os.path.join(c.tmp(), 'w')
    r, w = os.pipe()

    def run():
        n = [0]

        def hook(kind, p):
            n[0] += 1
        work(c, spec, wd, ms, hook)
        os.write(w, b'%d' % n[0])
    st = child(c, run)
    os.close(w)
    s = os.read(r, 100)
    os.close(r)
    if st != 0 or not s:
        raise core.Violation('undisturbed run with a working directory failed (status %d)' % st)
    sizes = [os.path.getsize(os.path.join(wd, x)) for x in os.listdir(wd)]
    return int(s), max(sizes)


def kill_events(c):
    """Killed right before the k-th file-system event, for every k."""
    kind = ['ens', 'hurdle', 'gauss', 'determ', 'tgamma', 'hurdle'][c.index % 6]
    if c.index % 6 == 5:
        c.env(integrate_with_less_memory=True)
    spec = spec_for(c, kind)
    ms = metrics(kind, spec.o)
    ms = [ms[i] for i in c.rng.permutation(len(ms))]
    n, _ = count_events(c, spec, ms)
    c.count('events enumerated', n)
    c.say(kind=kind, events=n)
    ks = range(1, n + 1)
    if c.tier == 'quick' and n > 14:
        ks = sorted(int(x) for x in c.rng.permutation(n)[:14] + 1)
    for k in ks:
        wd = os.path.join(c.tmp(), 'w')
        fail = k % 3 == 0

        def run():
            i = [0]

            def hook(ev, p):
                i[0] += 1
                if i[0] == k:
                    if fail:
                        raise OSError(28, 'No space left on device (injected)')
                    os._exit(9)
            work(c, spec, wd, ms, hook, ignore=fail)
        st = child(c, run)
        if not fail and (not os.WIFEXITED(st) or os.WEXITSTATUS(st) != 9):
            raise Inconclusive('fault %d was not injected (status %d)' % (k, st))
        c.count('failed event' if fail else 'killed before an event')
        c.sig('event', kind, k, fail)
        resume(c, spec, wd, ms, '%s event %d' % ('failing' if fail else 'being killed at', k))


def midfile(c):
    """Stopped after writing some bytes of a file: by a signal, or by a failing write."""
    kind = ['ens', 'gauss', 'hurdle', 'gamma'][c.index % 4]
    spec = spec_for(c, kind)
    ms = metrics(kind, spec.o)
    ms = [ms[i] for i in c.rng.permutation(len(ms))]
    _, size = count_events(c, spec, ms)
    points = [0, 1, 2, 10, size // 2, size - 2, size - 1] + [int(x) for x in c.rng.integers(0, size, 3 if c.tier == 'quick' else 30)]
    c.say(kind=kind, largest_file=size, bytes=str(points))
    for limit in points:
        ignore = bool(c.rng.random() < .5)
        wd = os.path.join(c.tmp(), 'w')
        st = child(c, lambda: work(c, spec, wd, ms, limit=limit, ignore=ignore))
        if ignore:
            c.count('failed in the middle of a file')
        elif os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXFSZ:
            c.count('killed in the middle of a file')
        c.sig('byte', kind, limit, ignore)
        resume(c, spec, wd, ms, 'stopping at byte %d (%s)' % (limit, 'error' if ignore else 'signal'))


def random_kill(c):
    """Killed at random times while saving large results."""
    spec = mk.make(c.rng, 'gauss', (300, 400), distinct=True)
    ms = [('sq_error', {}), ('variance', {}), ('cdf', {'below': 1.0}), ('crps', {}), ('brier', {'over': 2.0})]
    wd = os.path.join(c.tmp(), 'w')
    for i in range(4):
        pid = os.fork()
        if pid == 0:
            try:
                work(c, spec, wd, ms[i % 5:] + ms[:i % 5])
                os._exit(0)
            except BaseException:
                os._exit(7)
        time.sleep(float(c.rng.uniform(0.0, 0.06)))
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        c.count('kills at random times')
    resume(c, spec, wd, ms, 'kills')
    c.sig('random_kill', c.index)


def concurrent(c):
    """Several processes on the same data in the same directory, with delays at file-system events."""
    kind = ['ens', 'gauss', 'hurdle', 'gamma', 'hurdle', 'hurdle'][c.index % 6]
    if c.index % 6 in (4, 5):
        c.env(integrate_with_less_memory=True)
        c.count('concurrent low-memory integrations')
    spec = spec_for(c, kind)
    ms = metrics(kind, spec.o)
    plain = spec.build()
    c.say(kind=kind, metrics=str([n for n, _ in ms]))
    want = [getattr(plain, n)(**k) for n, k in ms]
    wd = os.path.join(c.tmp(), 'w')
    if c.index % 2:
        os.makedirs(wd)
    else:
        c.count('concurrent creation')
    P = 4
    pids = []
    outs = []
    res = c.tmp()
    start = time.time() + .15
    for j in range(P):
        order = [int(i) for i in c.rng.permutation(len(ms))]
        sd = int(c.rng.integers(2 ** 31))
        out = os.path.join(res, str(j))
        outs.append((out, order))
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(120)
                rnd = random.Random(sd)
                err = None
                got = {}
                try:
                    c.sb.hook_fn = lambda ev, p: time.sleep(.05 if ev == 'mkdir' else rnd.random() * .008)
                    time.sleep(max(0, start - time.time()))
                    v = spec.build(working_directory=wd, start_from_scratch=False)
                    for i in order:
                        n, k = ms[i]
                        got[i] = getattr(v, n)(**k)
                except Exception as e:
                    err = '%s: %s' % (type(e).__name__, e)
                c.sb.hook_fn = None
                with open(out, 'wb') as f:
                    pickle.dump((err, got), f)
                os._exit(0)
            except BaseException:
                os._exit(7)
        pids.append(pid)
    # one more that comes and goes: it constructs verifiers on the directory while the others are saving
    out = os.path.join(res, 'guest')
    guest = os.fork()
    if guest == 0:
        try:
            signal.alarm(120)
            time.sleep(max(0, start - time.time()))
            err, i = None, 0
            try:
                while not os.path.exists(out + '.stop') or i < 20:
                    spec.build(working_directory=wd, start_from_scratch=False)
                    i += 1
                    time.sleep(.002)
            except Exception as e:
                err = '%s: %s' % (type(e).__name__, e)
            with open(out, 'wb') as f:
                pickle.dump((err, i), f)
            os._exit(0)
        except BaseException:
            os._exit(7)
    for p in pids:
        os.waitpid(p, 0)
    open(out + '.stop', 'w').close()
    os.waitpid(guest, 0)
    if not os.path.exists(out):
        raise Inconclusive('a concurrent process did not report')
    err, i = pickle.load(open(out, 'rb'))
    c.true(err is None, 'constructing a verifier while others save failed: %s' % err)
    c.count('constructions while others save', i)
    for out, order in outs:
        if not os.path.exists(out):
            raise Inconclusive('a concurrent process did not report')
        err, got = pickle.load(open(out, 'rb'))
        c.true(err is None, 'a concurrent process failed: %s' % err)
        for i, (n, k) in enumerate(ms):
            c.close_tree('%s of a concurrent process' % n, got[i], want[i], 1e-10, 1e-12)
        c.count('concurrent processes')
    c.sig('concurrent', kind, [o for _, o in outs])
    resume(c, spec, wd, ms, 'concurrent runs')


def reader(c):
    """A process reads the directory again and again while another one saves large results."""
    spec = mk.make(c.rng, 'gauss', (700, 700), distinct=True)
    names = [('sq_error', {}), ('variance', {}), ('cdf', {'below': 1.0})]
    plain = spec.build()
    want = {n: getattr(plain, n)(**k) for n, k in names}
    wd = os.path.join(c.tmp(), 'w')
    os.makedirs(wd)
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(60)
            for r in range(3):
                work(c, spec, wd, names)
                for x in os.listdir(wd):
                    if x.endswith('.pkl'):
                        os.remove(os.path.join(wd, x))
            os._exit(0)
        except BaseException:
            os._exit(7)
    n = 0
    v = spec.build(working_directory=wd, start_from_scratch=False)
    err = None
    try:
        while True:
            done, _ = os.waitpid(pid, os.WNOHANG)
            for nm, k in names:
                # only read: a result that is not there yet is left to the writer
                if any(x.startswith(nm) and x.endswith('.pkl') for x in os.listdir(wd)):
                    try:
                        g = getattr(v, nm)(**k)
                    except FileNotFoundError:
                        continue
                    n += 1
                    c.close(nm + ' read while another process saves', g, want[nm], 1e-10, 1e-12)
            if done:
                pid = None
                break
    except core.Violation:
        raise
    except Exception as e:
        err = e
    finally:
        if pid:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    if err is not None:
        c.fail('reading while another process saves raised %s: %s' % (type(err).__name__, err))
    c.count('reader during write', max(n, 1))
    c.sig('reader', c.index, n > 0)


WORKLOADS = [('kill_events', kill_events, 6, 42), ('midfile', midfile, 4, 40), ('random_kill', random_kill, 3, 60),
             ('concurrent', concurrent, 6, 120), ('reader', reader, 2, 20)]
