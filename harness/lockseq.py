"""C12: replay of LockSeq.tla histories on the real FileLock."""
import os
import shutil
import tempfile

from lib import detsim
from harness import osfault

LD = None
MOD = None
DIR = None
TMO, POLL = 0.2, 0.05


def setup(repo):
    global LD, MOD, DIR
    import atexit
    osfault.install()
    LD = detsim.setup_repo(repo)
    MOD = LD.fresh('filelock')
    DIR = tempfile.mkdtemp(prefix='aiuti-lock-', dir='/dev/shm'
                           if os.path.isdir('/dev/shm') else None)
    atexit.register(shutil.rmtree, DIR, ignore_errors=True)
    osfault.path = os.path.realpath(os.path.join(DIR, 'lock'))


def cleanup():
    shutil.rmtree(DIR, ignore_errors=True)


class Worker:
    def __init__(self, s, n):
        self.s, self.cmd, self.res = s, None, None
        self.stack = []
        self.th = s.spawn(self.run, 'w%d' % n)

    def run(self):
        while True:
            self.s.block(lambda: self.cmd is not None)
            try:
                self.res = ('ok', self.cmd())
            except Exception as e:
                self.res = ('exc', e)
            self.cmd = None

    def do(self, fn):
        """None if it hangs."""
        self.cmd = fn
        if not self.s.block(lambda: self.cmd is None,
                            self.s.clock + 3600):
            return None
        return self.res


def acquire(lk, w, op):
    """-> 'T' | 'F' (| exception)"""
    if op in ('wi', 'cx', 'cn'):
        cm = {'wi': lambda: lk, 'cx': lambda: lk.acquire_ctx(timeout=TMO),
              'cn': lambda: lk.acquire_ctx(blocking=False)}[op]()
        try:
            cm.__enter__()
        except TimeoutError:
            return False
        w.stack.append(cm)
        return True
    return {'nb': lambda: lk.acquire(blocking=False),
            't0': lambda: lk.acquire(timeout=0),
            'ts': lambda: lk.acquire(timeout=TMO),
            'bl': lambda: lk.acquire(timeout=-1),
            'df': lambda: lk.acquire()}[op]()


def replay(s, ws, case, base, num=0, soft=False):
    """None or (clause, ...); soft: it's about who gets the lock"""
    re, deft = case['re'], case['deft']
    locks = {}
    for o in (1, 2):
        kw = {}
        if re[o - 1]:
            kw['reentrant'] = True
        if deft != -1:
            kw['timeout'] = deft / 1000
        locks[o] = MOD.FileLock(osfault.spelling(num // 8 ** (o - 1)), **kw)
    for w in ws.values():
        del w.stack[:]
    held = []              # (thread, object) levels still owed
    log = []

    def state(l):
        if soft:
            return None
        for o in (1, 2):
            v = locks[o].is_locked
            if v is not (l == o):
                return ('is_locked', o, v, log)
        n = osfault.nfds()
        if n != base + (1 if l else 0):
            return ('fds', n - base, l, log)

    for st in case['hist']:
        op, t, o = st['op'], st['t'], st['o']
        lk, w = locks[o], ws[t]
        t0 = s.clock
        if op in ('rel', 'frc'):
            r = w.do(lambda: lk.release(force=True) if op == 'frc'
                     else lk.release())
        elif op in ('xit', 'xitx'):
            cm = w.stack.pop()

            def leave():
                if op == 'xit':
                    return cm.__exit__(None, None, None)
                e = KeyError('body')
                try:
                    r = cm.__exit__(KeyError, e, None)
                except KeyError as x:
                    if x is not e:
                        raise
                    return None
                if r:
                    raise RuntimeError('exception swallowed')
            r = w.do(leave)
        else:
            r = w.do(lambda: acquire(lk, w, op))
        dt = int(round((s.clock - t0) * 1000))
        log.append((op, t, o, repr(r), dt))
        if r is None:
            return ('hang', log)
        if r[0] == 'exc':
            return ('raised', log)
        if op in ('rel', 'frc', 'xit', 'xitx'):
            if op != 'xit' and op != 'xitx' and r[1] is not None:
                return ('release_value', log)
        elif r[1] is not st['ret']:
            return ('true_not_held' if r[1] else 'false_though_free', log)
        if not soft and not st['lo'] <= dt <= st['hi']:
            return ('duration', st, log)
        bad = state(st['l'])
        if bad:
            return bad
        if st['l'] == 0:
            held = []
        elif op not in ('rel', 'frc', 'xit', 'xitx') and st['ret']:
            held.append((t, o))
        elif op in ('rel', 'xit', 'xitx') and st['l'] == o and held:
            held.pop()
    while held:
        t, o = held.pop()
        r = ws[t].do(locks[o].release)
        log.append(('drain', t, o, repr(r)))
        if r is None or r[0] != 'ok':
            return ('drain', log)
        bad = state(o if held else 0)
        if bad:
            return bad
    # any thread and any object can acquire it again
    for o in (1, 2, 1):
        for t in (1, 2):
            r = ws[t].do(lambda: locks[o].acquire(blocking=False))
            log.append(('probe', t, o, repr(r)))
            if r is None or r != ('ok', True):
                return ('stuck_after', log)
            r = ws[t].do(locks[o].release)
            if r is None or r[0] != 'ok' or locks[o].is_locked:
                return ('probe_release', log)
    bad = state(0)
    if bad:
        return bad
    del lk
    locks.clear()
    return None


def run_job(job):
    cases = job['cases']
    n = bad = i = 0
    while i < len(cases):
        out = {}

        def main():
            nonlocal i
            s = detsim.SCHED
            ws = {t: Worker(s, t) for t in (1, 2)}
            base = osfault.nfds()
            while i < len(cases):
                c = cases[i]
                osfault.begin()
                s.since_clock = 0
                r = replay(s, ws, c, base, i, job.get('soft'))
                i += 1
                if r:
                    out['bad'] = (c, r)
                    return
        s = detsim.Sched(max_steps=10 ** 9, max_clock=1e12)
        s.run(main, real_timeout=80)
        n = i
        osfault.reap()
        if s.end != 'done' and 'bad' not in out:
            out['bad'] = (cases[min(i, len(cases) - 1)],
                          ('hang', s.end))
            i += 1
        if 'bad' in out:
            bad += 1
            if bad <= 3:
                c, r = out['bad']
                yield {'trace': {'case': c, 'got': repr(r)},
                       'clause': 'C12.' + r[0], 'runs': 0}
            if bad > 20:
                break
    yield {'skip': True, 'runs': n}
