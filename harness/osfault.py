"""In-process stand-ins around os.open/os.close/fcntl.flock/lockf (and
time.sleep).

The real system calls are made (so the kernel decides who holds a lock),
but a blocking flock waits in the simulation instead of in the kernel, and
OSErrors, interruptions (an exception of a signal handler) and jumps of the
system clock can be injected at chosen calls."""
import errno
import fcntl
import os
import pathlib
import time

from lib import detsim

_open, _close = os.open, os.close
_flock, _lockf = fcntl.flock, fcntl.lockf

version = 0             # changes whenever a kernel lock may have become free
plan = {}               # (kind, index within the operation) -> errno
counts = {}
fired = 0
active = False          # time.sleep is that of an operation
path = None
calls = []              # kinds of the calls made in the current operation
touched = 0             # kernel calls on the lock file so far
fds = set()


class Interrupt(BaseException):
    """Raised by a signal handler."""


def begin(p=None):
    """A new operation starts; p: {(kind, n): errno | 'intr' | a jump}"""
    global plan, fired
    plan = p or {}
    counts.clear()
    fired = 0
    del calls[:]


def _fault(kind):
    global fired, touched
    touched += 1
    n = counts.get(kind, 0)
    counts[kind] = n + 1
    calls.append(kind)
    e = plan.get((kind, n)) or plan.get((kind, '*'))
    if isinstance(e, float):
        detsim.WALL += e
        return None
    if e:
        fired += 1
        if e == 'intr':
            return Interrupt()
        return OSError(e, os.strerror(e))


def _point():
    s = detsim.cur()
    if s is not None:
        s.point()


class Spath:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


def spelling(n):
    """A way of naming the lock file."""
    d, f = os.path.split(path)
    if n % 8 == 6 and not os.path.lexists(path + '.sym'):
        os.symlink(f, path + '.sym')
    return [path, path, pathlib.Path(path), Spath(path), f'{d}/./{f}',
            f'{d}/../{os.path.basename(d)}/{f}', path + '.sym',
            os.path.relpath(path)][n % 8]


def ours(p):
    if not isinstance(p, (str, os.PathLike)):
        return False
    p = os.fspath(p)
    return p == path or (p.endswith(('lock', 'lock.sym'))
                         and os.path.realpath(p) == path)


def sim_open(p, flags, *a, **k):
    if path is None or not ours(p):
        return _open(p, flags, *a, **k)
    _point()
    e = _fault('open')
    if e:
        raise e
    fd = _open(p, flags, *a, **k)
    fds.add(fd)
    return fd


def sim_close(fd):
    global version
    if fd not in fds:
        return _close(fd)
    _point()
    e = _fault('close')
    fds.discard(fd)
    _close(fd)
    version += 1
    if e:
        raise e


def _lock(real, fd, op, a):
    global version
    if fd not in fds:
        return real(fd, op, *a)
    _point()
    if op & fcntl.LOCK_UN:
        e = _fault('unlock')
        if e:
            raise e
        r = real(fd, op, *a)
        version += 1
        return r
    e = _fault('lock')
    if e:
        raise e
    s = detsim.cur()
    if op & fcntl.LOCK_NB or s is None:
        return real(fd, op, *a)
    while True:
        try:
            return real(fd, op | fcntl.LOCK_NB, *a)
        except OSError as e:
            if e.errno not in (errno.EAGAIN, errno.EACCES):
                raise
        v = version
        s.block(lambda: version != v, None, 'flock')


def sim_flock(fd, op):
    return _lock(_flock, fd if isinstance(fd, int) else fd.fileno(), op, ())


def sim_lockf(fd, op, *a):
    return _lock(_lockf, fd if isinstance(fd, int) else fd.fileno(), op, a)


def hook_sleep():
    """Once the simulated sleep is in place."""
    sleep = time.sleep

    def sim_sleep(dt):
        if detsim.cur() is not None and active:
            e = _fault('sleep')
            if isinstance(e, Interrupt):
                raise e
        sleep(dt)
    time.sleep = sim_sleep


def install():
    os.open, os.close = sim_open, sim_close
    fcntl.flock, fcntl.lockf = sim_flock, sim_lockf


def nfds():
    return len(os.listdir('/proc/self/fd'))


def reap():
    """Close what a failed run has left open."""
    global version
    for fd in list(fds):
        fds.discard(fd)
        try:
            _close(fd)
        except OSError:
            pass
    version += 1
