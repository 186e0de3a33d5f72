"""Replay of Fork.tla histories with real processes.

Tree: this worker is Q; P is forked per history and has a second thread; C is
forked by P when the history says so."""
import contextlib
import ctypes
import gc
import json
import os
import queue
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import weakref

FL = None
BASE = None
LIMIT = 20.0


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang


def setup(repo):
    global FL, BASE
    signal.signal(signal.SIGALRM, on_alarm)
    import atexit
    import logging
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, repo)
    import aiuti.filelock as FL_
    FL = FL_
    BASE = tempfile.mkdtemp(prefix='aiuti-lockfork-')
    atexit.register(shutil.rmtree, BASE, ignore_errors=True)
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)     # orphans become ours


def nfds():
    return len(os.listdir('/proc/self/fd'))


ACQ = {
    'nb': lambda lk: lk.acquire(blocking=False),
    't0': lambda lk: lk.acquire(timeout=0),
    'ts': lambda lk: lk.acquire(timeout=.01, poll_interval=.002),
    'cn': lambda lk: lk.acquire_ctx(blocking=False),
    'ct': lambda lk: lk.acquire_ctx(timeout=.01, poll_interval=.002),
    'bl': lambda lk: lk.acquire(),
    'wi': lambda lk: lk,
}


class User:
    """Does what it is told to with a lock."""

    def __init__(self, lk):
        self.lk = lk
        self.stack = []
        self.keep = []

    def do(self, op, sty):
        lk = self.lk
        try:
            if op == 'acq':
                r = ACQ[sty](lk)
                if sty in ('cn', 'ct', 'wi'):
                    try:
                        r.__enter__()
                    except TimeoutError:
                        return False
                    self.stack.append(r)
                    return True
                if r:
                    self.stack.append(None)
                return r
            cm = self.stack.pop() if self.stack else None
            if op == 'force' or cm is None:
                if op == 'force':
                    self.keep += self.stack + [cm]
                    del self.stack[:]
                    lk.release(force=True)
                else:
                    lk.release()
            else:
                cm.__exit__(None, None, None)
            return True
        except Exception as e:
            return 'raised ' + repr(e)


def send(sock, x):
    sock.sendall(json.dumps(x).encode() + b'\n')


class Peer:
    def __init__(self, sock):
        self.sock, self.buf = sock, b''

    def recv(self, limit=None):
        self.sock.settimeout(limit)
        while b'\n' not in self.buf:
            x = self.sock.recv(4096)
            if not x:
                raise EOFError
            self.buf += x
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)


def serve(sock, user, fork, thread=None):
    """A process obeying commands; ends by os._exit."""
    peer = Peer(sock)
    base = nfds()
    while True:
        m = peer.recv()
        op = m['op']
        if op == 'state':
            r = [user.lk.is_locked, nfds() - base]
        elif op == 'fork':
            r = fork()
        elif op == 'exit':
            ref = weakref.ref(user.lk)
            user.__dict__.clear()
            gc.collect()
            send(sock, ref() is None)
            os._exit(0)
        elif op == 'wait':
            r = os.waitpid(m['pid'], 0)[1]
        elif m['a'] == 2:
            thread[0].put(m)
            r = thread[1].get()
        else:
            r = user.do(op, m['sty'])
        send(sock, r)


def parent(path, re, sp, sc):
    lk = FL.FileLock(path, reentrant=re)
    one, two = User(lk), User(lk)
    del lk
    todo, done = queue.Queue(), queue.Queue()

    def second():
        while True:
            m = todo.get()
            done.put(two.do(m['op'], m['sty']))
    threading.Thread(target=second, daemon=True).start()

    def fork():
        pid = os.fork()
        if pid:
            return pid
        try:
            one.keep += two.stack + two.keep
            two.__dict__.clear()
            serve(sc, one, None)
        except BaseException:
            os._exit(3)
    serve(sp, one, fork, (todo, done))


def run_case(case, n):
    d = tempfile.mkdtemp(dir=BASE)
    path = os.path.join(d, 'lock')
    p1, p2 = socket.socketpair()
    c1, c2 = socket.socketpair()
    pid = os.fork()
    if not pid:
        try:
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            p1.close()
            c1.close()
            parent(path, case['re'], p2, c2)
        except BaseException:
            os._exit(3)
    p2.close()
    P, C = Peer(p1), Peer(c1)
    q = User(FL.FileLock(path, reentrant=True))
    qbase = nfds()
    cpid = None
    alive = {'P'}
    killed = False
    log = []
    held = 0

    def ask(peer, **m):
        send(peer.sock, m)
        try:
            return peer.recv(LIMIT)
        except socket.timeout:
            return 'hang'
        except (EOFError, OSError):
            return 'died'

    def end(p, how):
        """-> None or what went wrong"""
        nonlocal killed
        if how == 'exit':
            r = ask(C, op='exit')
            if r is not True:
                return r
        else:
            os.kill(pid if p == 'P' else cpid, signal.SIGKILL)
        alive.discard(p)
        if p == 'P':
            os.waitpid(pid, 0)
            killed = True
        elif 'P' in alive:
            ask(P, op='wait', pid=cpid)
        else:
            os.waitpid(cpid, 0)
        if how == 'kill':
            killed = True

    def step(i, st):
        nonlocal cpid
        op, a = st['op'], st['a']
        if op in ('kill', 'exit'):
            r = end('P' if a == 1 else 'C', op)
            return ('raised', r) if r else None
        if op == 'fork':
            cpid = ask(P, op='fork')
            if not isinstance(cpid, int):
                return 'raised', cpid
            alive.add('C')
            return None
        stys = ['nb', 't0', 'ts', 'cn', 'ct'] + ['bl', 'wi'] * st['ret']
        sty = stys[(n + i * 3) % len(stys)]
        if a == 4:
            signal.setitimer(signal.ITIMER_REAL, LIMIT)
            try:
                r = q.do(op, sty)
            except Hang:
                r = 'hang'
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        else:
            r = ask(C if a == 3 else P, op=op, a=a, sty=sty)
        log.append((op, a, sty, r))
        if op != 'acq':
            return None if r is True else ('raised', r)
        if r is st['ret']:
            return None
        if r is True:
            return 'exclusion', st
        if r is False or r == 'hang':
            return ('stuck' if killed else 'false_though_free'), st
        return 'raised', r

    def states(st, i):
        for p, want in (('P', st['p']), ('C', st['c']), ('Q', st['q'])):
            if p == 'Q':
                got = [q.lk.is_locked, nfds() - qbase]
            elif p not in alive:
                continue
            else:
                got = ask(P if p == 'P' else C, op='state')
                if not isinstance(got, list):
                    return 'raised', got
            if got[0] is not want:
                return 'is_locked', (p, got, st)
            if got[1] != (1 if want else 0):
                return 'descriptors', (p, got, st)

    bad, soft = None, []
    try:
        for i, st in enumerate(case['hist']):
            bad = step(i, st)
            if bad:
                break
            x = states(st, i)
            if x:       # the history can go on all the same
                soft.append(x)
            held = st['held']
        if not bad and held != 4:
            r = FL.FileLock(path)
            got = r.acquire(blocking=False)
            if got is not (held == 0):
                bad = (('exclusion' if got else 'stuck' if killed
                        else 'false_though_free'), 'final')
            r.release()
    finally:
        if 'P' in alive:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        if 'C' in alive:
            os.kill(cpid, signal.SIGKILL)
        if isinstance(cpid, int):
            with contextlib.suppress(ChildProcessError):
                os.waitpid(cpid, 0)
        q.lk.release(force=True)
        for s in (p1, c1, c2):
            s.close()
        shutil.rmtree(d, ignore_errors=True)
    return [b + (log,) for b in soft[:1] + [bad] if b]


def run_job(job):
    n = 0
    for k, c in enumerate(job['cases']):
        bad = run_case(c, job['seed'] + k)
        n += 1
        for b in bad:
            yield {'trace': {'case': c, 'n': job['seed'] + k,
                             'got': repr(b)},
                   'clause': b[0], 'runs': 0}
    yield {'skip': True, 'runs': n}
