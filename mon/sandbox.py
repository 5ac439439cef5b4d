"""Scratch directory, file-system audit hook and line/function coverage of the code under test.

The audit hook is both a containment guard (a write, rename or delete outside the scratch
directory raises before it happens) and the event source of the file-system monitors.
It is inherited by forked worker processes.
"""
import os
import shutil
import sys
import tempfile

REPO = '/repo'
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class Escape(PermissionError):
    """The code under test tried to modify something outside the scratch directory."""


class Sandbox:
    def __init__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='pv', dir='/tmp'))
        self.pid = os.getpid()
        self.allowed = [self.root]
        self.events = None          # list while recording
        self.escapes = []
        self.active = False
        self.hook_fn = None         # extra callable(event, path), used to inject crashes
        for d in ('home', 't', 'cwd', 'r'):
            os.mkdir(os.path.join(self.root, d))
        os.environ['HOME'] = os.path.join(self.root, 'home')
        os.environ['TMPDIR'] = os.path.join(self.root, 't')
        os.environ['RAY_TMPDIR'] = os.path.join(self.root, 'r')
        tempfile.tempdir = None
        self.cwd = os.path.join(self.root, 'cwd')
        os.chdir(self.cwd)
        self._n = 0

    def fresh(self, prefix='d'):
        self._n += 1
        p = os.path.join(self.root, '%s%d' % (prefix, self._n))
        os.mkdir(p)
        return p

    def start(self):
        if not self.active:
            self.active = True
            sys.addaudithook(self._audit)

    def close(self):
        self.active = False
        if os.getpid() == self.pid:
            os.chdir('/')
            shutil.rmtree(self.root, ignore_errors=True)

    # -- audit hook -------------------------------------------------------------------------
    def _norm(self, p):
        if isinstance(p, int):
            return None
        # '..' is meant after links have been followed
        p = os.path.join(os.getcwd(), os.fsdecode(p)).rstrip('/') or '/'
        if os.path.basename(p) in ('.', '..'):
            return os.path.realpath(p)
        return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))

    def _ok(self, p):
        if p is None or p.startswith('/dev/') or p.startswith('/proc/self/'):
            return True
        return any(p == a or p.startswith(a + '/') for a in self.allowed)

    def _touch(self, kind, p):
        p = self._norm(p)
        if p is None:
            return
        if self.events is not None and not p.startswith('/dev/'):
            self.events.append((kind, p))
        if self.hook_fn is not None:
            self.hook_fn(kind, p)
        if not self._ok(p):
            self.escapes.append((kind, p))
            raise Escape(13, 'blocked by the check: %s outside the scratch directory' % kind, p)

    def _audit(self, ev, args):
        if not self.active:
            return
        if ev == 'open':
            p, mode, flags = args
            if isinstance(p, int) or p is None:
                return
            w = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or \
                (mode is None and isinstance(flags, int) and flags & _WRITE)
            if w:
                self._touch('write', p)
            elif self.events is not None and not isinstance(p, int):
                q = self._norm(p)
                if q and q.startswith(self.root):
                    self.events.append(('read', q))
        elif ev in ('os.remove', 'os.rmdir', 'os.truncate', 'os.mkdir', 'os.chmod', 'os.utime', 'os.mkfifo'):
            if ev in ('os.remove', 'os.rmdir') and len(args) > 1 and isinstance(args[1], int) and args[1] >= 0:
                # relative to a directory descriptor (inside rmtree, which was judged as a whole)
                try:
                    base = os.readlink('/proc/self/fd/%d' % args[1])
                    self._touch(ev[3:], os.path.join(base, os.fsdecode(args[0])))
                except OSError as e:
                    if isinstance(e, Escape):
                        raise
                return
            self._touch(ev[3:], args[0])
        elif ev in ('os.rename', 'os.link'):
            self._touch(ev[3:] + '-from', args[0])
            self._touch(ev[3:] + '-to', args[1])
        elif ev == 'os.symlink':
            self._touch('symlink', args[1])
        elif ev == 'shutil.rmtree':
            self._touch('rmtree', args[0])
        elif ev in ('shutil.move', 'shutil.copyfile', 'shutil.copytree'):
            self._touch(ev[7:], args[1])


class Recorder:
    """Context manager: the file-system events of the code run inside."""
    def __init__(self, sb):
        self.sb = sb

    def __enter__(self):
        self.sb.events = []
        return self

    def __exit__(self, *a):
        self.events = self.sb.events
        self.sb.events = None

    @property
    def now(self):
        return list(self.sb.events or [])

    def changes(self):
        return [e for e in self.events if e[0] != 'read']


class Reach:
    """Functions and lines of /repo/PyAnEn that ran in this process (sys.monitoring, each reported once)."""
    def __init__(self):
        self.lines = set()
        self.funcs = set()
        m = sys.monitoring
        self.id = m.COVERAGE_ID
        m.use_tool_id(self.id, 'verif-reach')
        pre = REPO + '/PyAnEn/'

        def on_line(code, line):
            if code.co_filename.startswith(pre):
                self.lines.add((code.co_filename[len(pre):], line))
            return m.DISABLE

        def on_start(code, off):
            if code.co_filename.startswith(pre):
                self.funcs.add(code.co_filename[len(pre):-3] + '.' + code.co_qualname)
            return m.DISABLE

        m.register_callback(self.id, m.events.LINE, on_line)
        m.register_callback(self.id, m.events.PY_START, on_start)

    def start(self):
        m = sys.monitoring
        m.set_events(self.id, m.events.LINE | m.events.PY_START)

    def stop(self):
        sys.monitoring.set_events(self.id, 0)


def tree(path, skip=()):
    """Snapshot of a directory tree: {relative path: (kind, content)}; links are not followed."""
    out = {}
    for d, ds, fs in os.walk(path):
        for n in ds + fs:
            p = os.path.join(d, n)
            r = os.path.relpath(p, path)
            if any(p == s or p.startswith(s + '/') for s in skip):
                continue
            if os.path.islink(p):
                out[r] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ('dir', os.stat(p).st_mode & 0o777)
            elif os.path.isfile(p):
                with open(p, 'rb') as f:
                    out[r] = ('file', f.read())
            else:
                out[r] = ('other', None)
    return out


def diff(a, b):
    """What changed from snapshot a to snapshot b, in words."""
    out = ['%s vanished' % k for k in a if k not in b] + ['%s appeared' % k for k in b if k not in a]
    return out + ['%s changed' % k for k in a if k in b and a[k] != b[k]]
