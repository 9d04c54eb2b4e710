"""File-system seam: Python's view of the disk, with faults, crashes and seeded directory order.

The real file system below a scratch directory is the simulated disk.  What the simulated program has handed to the
operating system survives a crash; what sits in its own buffers does not.  Outside the scratch directory reading is
allowed and writing is refused and recorded (`Sim.escapes`).
"""
import _io
import builtins
import errno
import io
import os
import random
import shutil
import subprocess
import sys
import tempfile

from .kernel import Sim, SimCrash

R = {}          # the real functions
_fds = {}       # descriptors opened by the simulated program below the root


def _sim():
    s = Sim.current
    if s is None:
        return None
    t = s.task()
    if t is None or not t.in_op:
        return None
    return s


def _abs(p, dir_fd=None):
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if dir_fd is not None:
        p = os.path.join(_fds.get(dir_fd, '/'), p)
    return os.path.abspath(p)


def _inside(s, p):
    return p == s.root or p.startswith(s.root + os.sep)


def _rel(s, p):
    return os.path.relpath(p, s.root) if _inside(s, p) else p


_ERR = {
    'open-w': errno.ENOSPC, 'open-r': errno.EIO, 'write': errno.ENOSPC, 'read': errno.EIO, 'mkdir': errno.ENOSPC,
    'rename': errno.EIO, 'unlink': errno.EACCES, 'rmdir': errno.EACCES, 'list': errno.EIO, 'truncate': errno.EIO,
    'close': errno.EIO, 'link': errno.ENOSPC, 'fsync': errno.EIO,
}
_ALLOC = ('open-w', 'write', 'mkdir', 'link')      # calls that need space


def _fail(s, f, kind, path):
    s.hit(f, kind, _rel(s, path))
    e = _ERR.get(kind, errno.EIO)
    raise OSError(e, os.strerror(e) + ' (simulated)', path)


def _guard(kind, path, fn, mutates=True):
    s = _sim()
    if s is None:
        return fn()
    if not _inside(s, path):
        if mutates:
            s.escapes.append((kind, path))
            raise PermissionError(errno.EACCES, 'outside the simulated disk', path)
        return fn()
    f = s.point(kind, _rel(s, path))
    if f is None:
        return fn()
    if f == 'full':
        if kind in _ALLOC:
            _fail(s, f, kind, path)
        return fn()
    if f in ('err', 'partial'):
        _fail(s, f, kind, path)
    if f == 'crash':
        s.die(f, kind, _rel(s, path))
    if f in ('crash_after', 'torn'):
        r = fn()
        if hasattr(r, 'close'):
            r.close()
        s.die(f, kind, _rel(s, path))
    return fn()


# ---- files ---------------------------------------------------------------
class SimRaw(io.FileIO):
    _sim_path = None

    def write(self, b):
        s = _live(self)
        if s is None:
            return super().write(b)
        if s.dead:
            raise SimCrash()
        n = len(memoryview(b).cast('B')) if not isinstance(b, (bytes, bytearray)) else len(b)
        data = bytes(b)
        f = s.point('write', _rel(s, self._sim_path))
        if f is None:
            return super().write(data)
        cut = n // 2 if n > 1 else 0
        if f == 'full' or f == 'err':
            _fail(s, f, 'write', self._sim_path)
        if f == 'partial':
            if not getattr(self, '_cut', False) and cut:
                # a short write first; the rest fails
                self._cut = True
                s.task().faults[s.task().calls + 1] = 'partial'
                return super().write(data[:cut])
            _fail(s, f, 'write', self._sim_path)
        if f == 'crash':
            s.die(f, 'write', _rel(s, self._sim_path))
        if f == 'torn':
            super().write(data[:cut])
            s.die(f, 'write', _rel(s, self._sim_path))
        if f == 'crash_after':
            super().write(data)
            s.die(f, 'write', _rel(s, self._sim_path))
        return super().write(data)

    def _rd(self, fn):
        s = _live(self)
        if s is None:
            return fn()
        f = s.point('read', _rel(s, self._sim_path))
        if f in ('err', 'partial'):
            _fail(s, f, 'read', self._sim_path)
        if f in ('crash', 'crash_after', 'torn'):
            s.die(f, 'read', _rel(s, self._sim_path))
        return fn()

    def readinto(self, b):
        return self._rd(lambda: io.FileIO.readinto(self, b))

    def read(self, *a):
        return self._rd(lambda: io.FileIO.read(self, *a))

    def readall(self):
        return self._rd(lambda: io.FileIO.readall(self))

    def truncate(self, *a):
        s = _live(self)
        if s is None:
            return super().truncate(*a)
        return _guard('truncate', self._sim_path, lambda: io.FileIO.truncate(self, *a))


def _live(raw):
    if raw._sim_path is None:
        return None
    s = Sim.current
    if s is None:
        return None
    t = s.task()
    if t is None:
        if s.dead:
            raise SimCrash()
        return None
    if not t.in_op:
        if s.dead:
            raise SimCrash()
        return None
    return s


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = _sim()
    if s is None:
        return R['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in 'wax+')
    if isinstance(file, int):
        path = _fds.get(file)
        if path is None:
            return R['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        path = _abs(file)
        if not _inside(s, path):
            if writing and path != os.devnull:
                s.escapes.append(('open-w', path))
                raise PermissionError(errno.EACCES, 'outside the simulated disk', path)
            return R['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    rawmode = ''.join(c for c in mode if c in 'rwax+')

    def do():
        raw = SimRaw(file, rawmode, closefd, opener=opener)
        raw._sim_path = path
        return raw
    if isinstance(file, int):
        raw = do()
    else:
        raw = _guard('open-w' if writing else 'open-r', path, do, mutates=writing)
    try:
        size = buffering
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line = False
        if size == 1:
            line, size = True, -1
        if size < 0:
            size = s.order.choice(s.buf_choices)
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif any(c in mode for c in 'wax'):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, max(size, 256))
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line)
        text.mode = mode
        if size < 8192:
            text._CHUNK_SIZE = max(size, 1)
        return text
    except BaseException:
        raw.close()
        raise


def _install_os():
    def one(name, kind, mutates=True):
        real = getattr(os, name)
        R[name] = real

        def f(path, *a, **k):
            if _sim() is None or isinstance(path, int):
                return real(path, *a, **k)
            return _guard(kind, _abs(path, k.get('dir_fd')), lambda: real(path, *a, **k), mutates)
        f.__name__ = name
        setattr(os, name, f)

    for n, k in (('mkdir', 'mkdir'), ('rmdir', 'rmdir'), ('unlink', 'unlink'), ('remove', 'unlink'),
                 ('truncate', 'truncate')):
        one(n, k)

    def two(name, kind):
        real = getattr(os, name)
        R[name] = real

        def f(a, b, *r, **k):
            s = _sim()
            if s is None:
                return real(a, b, *r, **k)
            pa, pb = _abs(a, k.get('src_dir_fd')), _abs(b, k.get('dst_dir_fd'))
            for p in (pa, pb):
                if not _inside(s, p) and not (name in ('symlink', 'link') and p == pa):
                    s.escapes.append((kind, p))
                    raise PermissionError(errno.EACCES, 'outside the simulated disk', p)
            return _guard(kind, pb, lambda: real(a, b, *r, **k))
        f.__name__ = name
        setattr(os, name, f)

    for n, k in (('rename', 'rename'), ('replace', 'rename'), ('link', 'link'), ('symlink', 'link')):
        two(n, k)

    def soft(name):
        """calls that are points of the schedule but never fail here"""
        real = getattr(os, name)
        R[name] = real

        def f(path, *a, **k):
            s = _sim()
            if s is None or isinstance(path, int):
                return real(path, *a, **k)
            p = _abs(path, k.get('dir_fd'))
            if _inside(s, p):
                s.point(name, _rel(s, p), faultable=False)
            return real(path, *a, **k)
        f.__name__ = name
        setattr(os, name, f)

    for n in ('stat', 'lstat', 'access'):
        soft(n)

    def softw(name):
        real = getattr(os, name)
        R[name] = real

        def f(path, *a, **k):
            s = _sim()
            if s is None or isinstance(path, int):
                return real(path, *a, **k)
            p = _abs(path, k.get('dir_fd'))
            if not _inside(s, p):
                s.escapes.append((name, p))
                raise PermissionError(errno.EACCES, 'outside the simulated disk', p)
            s.point(name, _rel(s, p), faultable=False)
            return real(path, *a, **k)
        f.__name__ = name
        setattr(os, name, f)

    for n in ('chmod', 'utime', 'chown', 'setxattr'):
        if hasattr(os, n):
            softw(n)

    R['listdir'] = os.listdir
    R['scandir'] = os.scandir

    def listdir(path='.'):
        s = _sim()
        if s is None or isinstance(path, int):
            return R['listdir'](path)
        p = _abs(path)
        if not _inside(s, p):
            return R['listdir'](path)
        names = _guard('list', p, lambda: R['listdir'](path), mutates=False)
        names.sort()
        s.order.shuffle(names)
        return names

    class Scan:
        def __init__(self, entries):
            self._it = iter(entries)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self._it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def scandir(path='.'):
        s = _sim()
        if s is None or isinstance(path, int):
            return R['scandir'](path)
        p = _abs(path)
        if not _inside(s, p):
            return R['scandir'](path)

        def do():
            with R['scandir'](path) as it:
                return list(it)
        es = _guard('list', p, do, mutates=False)
        es.sort(key=lambda e: e.name)
        s.order.shuffle(es)
        return Scan(es)

    os.listdir = listdir
    os.scandir = scandir

    R['os_open'] = os.open
    R['os_close'] = os.close
    R['os_write'] = os.write
    R['os_read'] = os.read
    R['fsync'] = os.fsync

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        s = _sim()
        if s is None:
            return R['os_open'](path, flags, mode, dir_fd=dir_fd)
        p = _abs(path, dir_fd)
        w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        fd = _guard('open-w' if w else 'open-r', p, lambda: R['os_open'](path, flags, mode, dir_fd=dir_fd), mutates=w)
        if _inside(s, p):
            _fds[fd] = p
        return fd

    def os_close(fd):
        _fds.pop(fd, None)
        return R['os_close'](fd)

    def os_write(fd, b):
        s = _sim()
        p = _fds.get(fd)
        if s is None or p is None:
            return R['os_write'](fd, b)
        f = s.point('write', _rel(s, p))
        data = bytes(b)
        cut = len(data) // 2
        if f in ('full', 'err'):
            _fail(s, f, 'write', p)
        if f == 'partial':
            s.task().faults[s.task().calls + 1] = 'err'
            return R['os_write'](fd, data[:cut])
        if f == 'crash':
            s.die(f, 'write', _rel(s, p))
        if f == 'torn':
            R['os_write'](fd, data[:cut])
            s.die(f, 'write', _rel(s, p))
        r = R['os_write'](fd, data)
        if f == 'crash_after':
            s.die(f, 'write', _rel(s, p))
        return r

    def os_read(fd, n):
        s = _sim()
        p = _fds.get(fd)
        if s is None or p is None:
            return R['os_read'](fd, n)
        return _guard('read', p, lambda: R['os_read'](fd, n), mutates=False)

    def fsync(fd):
        s = _sim()
        if s is None:
            return R['fsync'](fd)
        if not isinstance(fd, int):
            fd = fd.fileno()
        p = _fds.get(fd)
        if p is not None:
            return _guard('fsync', p, lambda: None)
        s.point('fsync', '', faultable=False)

    os.open, os.close, os.write, os.read, os.fsync = os_open, os_close, os_write, os_read, fsync
    os.fdatasync = fsync
    for n in ('sendfile', 'copy_file_range', 'splice'):
        R[n] = getattr(os, n, None)
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    R['urandom'] = os.urandom

    def urandom(n):
        s = _sim()
        return R['urandom'](n) if s is None else s.rand.randbytes(n)
    os.urandom = urandom
    R['getpid'] = os.getpid

    def getpid():
        s = _sim()
        return R['getpid']() if s is None else s.pid
    os.getpid = getpid


class _Names:
    def __init__(self):
        self.r = random.Random(20160714)

    def __iter__(self):
        return self

    def __next__(self):
        s = Sim.current
        r = s.rand if s is not None else self.r
        return ''.join(r.choice('abcdefghijklmnopqrstuvwxyz0123456789') for _ in range(8))


def _install_subprocess():
    def record(kind):
        def f(cmd=None, *a, **k):
            s = Sim.current
            if s is None or s.task() is None:
                raise RuntimeError('sub-processes are not started in the simulation')
            s.subprocesses.append((kind, cmd if isinstance(cmd, str) else list(cmd or [])))
            flt = s.point('exec', '')
            if flt in ('crash', 'crash_after', 'torn'):
                s.die(flt, 'exec', kind)
            if flt in ('err', 'partial'):
                s.hit(flt, 'exec', kind)
                if kind == 'check_call':
                    raise subprocess.CalledProcessError(1, cmd)
                return 1
            if kind == 'run':
                return subprocess.CompletedProcess(cmd, 0, '', '')
            if kind == 'check_output':
                return b''
            if kind == 'Popen':
                class P:
                    returncode = 0
                    pid = 1

                    def wait(self, *a, **k):
                        return 0

                    def poll(self):
                        return 0

                    def communicate(self, *a, **k):
                        return b'', b''

                    def __enter__(self):
                        return self

                    def __exit__(self, *a):
                        return None
                return P()
            return 0
        return f
    for n in ('check_call', 'call', 'run', 'check_output', 'Popen'):
        setattr(subprocess, n, record(n))
    os.system = record('system')
    if hasattr(os, 'startfile'):
        del os.startfile
    shutil.which = lambda *a, **k: None


def install():
    """interpose; must run before the code under test is imported"""
    if R:
        return
    R['open'] = io.open
    builtins.open = sim_open
    io.open = sim_open
    _io.open = sim_open
    _install_os()
    _install_subprocess()
    tempfile._name_sequence = _Names()
    try:
        import fcntl
        R['flock'] = fcntl.flock

        def flock(fd, op):
            s = _sim()
            if s is None:
                return R['flock'](fd, op)
            while True:
                try:
                    return R['flock'](fd, op | fcntl.LOCK_NB)
                except BlockingIOError:
                    if op & fcntl.LOCK_NB:
                        raise
                    s.point('flock', '', faultable=False)
        fcntl.flock = flock
        fcntl.lockf = flock
    except ImportError:
        pass
    sys.unraisablehook = lambda *a: None
