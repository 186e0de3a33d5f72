"""FileLock with real processes: free-running contention (C02) and processes
killed at every line event (C13).  Events go to one O_APPEND log; its order is
consistent with who can hold the lock: a holder logs 'ret T' after acquire
returned and 'rel' before it releases."""
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

FL = None
BASE = None
LIMIT = 20.0          # generous bound for 'promptly', seconds
NOGC = False
KEEP = []


def setup(repo):
    global FL, BASE
    import atexit
    import logging
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, repo)
    import aiuti.filelock as FL_
    FL = FL_
    BASE = tempfile.mkdtemp(prefix='aiuti-lockproc-')
    atexit.register(shutil.rmtree, BASE, ignore_errors=True)


class Log:
    def __init__(self, d):
        self.path = os.path.join(d, 'log')
        self.fd = os.open(self.path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

    def __call__(self, e, **kw):
        kw['e'] = e
        kw['t'] = 0
        os.write(self.fd, json.dumps(kw).encode() + b'\n')

    def read(self):
        with open(self.path, 'rb') as f:
            return [json.loads(x) for x in f.read().split(b'\n') if x]


STY = {
    'bl': ('bl', lambda lk: lk.acquire()),
    'nb': ('nb', lambda lk: lk.acquire(blocking=False)),
    'ts': ('tm', lambda lk: lk.acquire(timeout=0.05, poll_interval=0.002)),
    'tl': ('tm', lambda lk: lk.acquire(timeout=LIMIT, poll_interval=0.005)),
    'wi': ('bl', None),
    'cb': ('bl', lambda lk: lk.acquire_ctx()),
    'cn': ('nb', lambda lk: lk.acquire_ctx(blocking=False)),
}
CTX = ('wi', 'cb', 'cn')


def acquire(log, lk, th, o, sty):
    k, fn = STY[sty]
    log('acq', th=th, o=o, k=k, tmo=0, poll=0)
    cm = None
    try:
        if sty in CTX:
            cm = lk if fn is None else fn(lk)
            try:
                cm.__enter__()
                r = 'T'
            except TimeoutError:
                r, cm = 'F', None
        else:
            v = fn(lk)
            r = 'T' if v is True else 'F' if v is False else 'X'
    except Exception:
        r = 'X'
    log('ret', th=th, ret=r, f=False)
    return (cm or True) if r == 'T' else None


def release(log, lk, th, o, cm, force=False):
    log('rel', th=th, o=o, force=force)
    try:
        if cm is True or force:
            lk.release(force=True) if force else lk.release()
        else:
            cm.__exit__(None, None, None)
        r = 'ok'
    except Exception:
        r = 'X'
    log('rrt', th=th, ret=r, f=False)


def loop(log, lk, th, o, rng, rounds, styles, reent, hold=0.001, gap=0.002):
    """Rounds of acquire / critical section / release."""
    for _ in range(rounds):
        cm = acquire(log, lk, th, o, rng.choice(styles))
        if cm is None:
            time.sleep(rng.random() * gap)
            continue
        cm2 = None
        if reent and rng.random() < .5:
            cm2 = acquire(log, lk, th, o, rng.choice(styles))
        if hold:
            time.sleep(rng.random() * hold)
        if cm2 is not None:
            if rng.random() < .3:
                release(log, lk, th, o, cm, True)
                KEEP.extend((cm, cm2))    # not finalised: would release
                continue
            release(log, lk, th, o, cm2)
        release(log, lk, th, o, cm)
        if gap:
            time.sleep(rng.random() * gap)


def fork(fn):
    pid = os.fork()
    if pid:
        return pid
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        fn()
    except BaseException:
        import traceback
        traceback.print_exc()
        os._exit(3)
    os._exit(0)


def wait_all(pids, limit, codes=None):
    """Wait for children; False if some are still alive at the limit."""
    end = time.monotonic() + limit
    left = set(pids)
    while left:
        for p in list(left):
            r, st = os.waitpid(p, os.WNOHANG)
            if r:
                left.discard(p)
                if codes is not None:
                    codes[p] = st
        if left:
            if time.monotonic() > end:
                for p in left:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                return False
            time.sleep(0.002)
    return True


# -- C02: contention --------------------------------------------------------
def stress(job):
    """job: {seed, procs: [[reentrant of each object], [object of thread]...]}
    """
    rng = random.Random(job['seed'])
    d = tempfile.mkdtemp(dir=BASE)
    path = os.path.join(d, 'lock')
    log = Log(d)
    re, thobj, plan = [], [], []
    for res, ths in job['procs']:
        o0 = len(re)
        re += res
        plan.append(([(o0 + i + 1) for i in range(len(res))],
                     [(len(thobj) + i + 1, o0 + o) for i, o in
                      enumerate(ths)]))
        thobj += ths
    early = None
    if job.get('prefork'):
        early = {o: FL.FileLock(path, reentrant=re[o - 1])
                 for o in range(1, len(re) + 1)}

    def proc(objs, ths, seed):
        locks = early or {o: FL.FileLock(path, reentrant=re[o - 1])
                          for o in objs}
        ts = []
        for th, o in ths:
            r = random.Random(f'{seed}/{th}')
            ts.append(threading.Thread(target=loop, daemon=True, args=(
                log, locks[o], th, o, r, job['rounds'], job['styles'],
                re[o - 1], job['hold'], job['gap'])))
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    pids = [fork(lambda a=a, b=b: proc(a, b, rng.random()))
            for a, b in plan]
    codes = {}
    ok = wait_all(pids, 60, codes)
    if any(codes.values()):
        raise RuntimeError('child failed: %r' % codes)
    # everything is free again: a fresh object of this process
    th = len(thobj) + 1
    re = re + [False]
    if ok:
        lk = FL.FileLock(path)
        cm = acquire(log, lk, th, len(re), 'nb')
        if cm:
            release(log, lk, th, len(re), cm)
    ev = log.read()
    ev.append({'e': 'end', 'how': 'done' if ok else 'hang', 't': 0})
    os.close(log.fd)
    shutil.rmtree(d)
    return {'re': re, 'n': th, 'ev': ev}


# -- C13: crashes -----------------------------------------------------------
USES = {
    'bl': lambda log, lk: _use(log, lk, ['bl']),
    'wi': lambda log, lk: _use(log, lk, ['wi']),
    'ts': lambda log, lk: _use(log, lk, ['ts']),
    'nb': lambda log, lk: _use(log, lk, ['nb']),
    'cx': lambda log, lk: _use(log, lk, ['cb']),
    'nest': lambda log, lk: _use(log, lk, ['bl', 'bl']),
    'nestw': lambda log, lk: _use(log, lk, ['wi', 'cb', 'nb']),
    'force': lambda log, lk: _use(log, lk, ['bl', 'bl'], True),
    'twice': lambda log, lk: (_use(log, lk, ['bl']), _use(log, lk, ['ts'])),
}
REENT = ('nest', 'nestw', 'force')


def _use(log, lk, styles, force=False):
    cms = []
    for sty in styles:
        cm = acquire(log, lk, 1, 1, sty)
        if cm is not None:
            cms.append(cm)
    time.sleep(0.001)
    if force and cms:
        release(log, lk, 1, 1, cms[0], True)
        return
    for cm in reversed(cms):
        release(log, lk, 1, 1, cm)


def codes_of(mod):
    out, seen = [], set()
    path = mod.__file__

    def walk(c):
        if c in seen or c.co_filename != path:
            return
        seen.add(c)
        out.append(c)
        for k in c.co_consts:
            if hasattr(k, 'co_code'):
                walk(k)
    import gc
    import types
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType) and \
                f.__code__.co_filename == path:
            walk(f.__code__)
    return out


def crash(job):
    """job: {use, at: n-th line event or None, delay: async kill, contenders:
    [style, ...], child: keep an exec'd subprocess alive}"""
    d = tempfile.mkdtemp(dir=BASE)
    path = os.path.join(d, 'lock')
    log = Log(d)
    n = len(job['contenders'])
    re = [job['use'] in REENT] + [False] * n + [False]
    rng = random.Random(job['seed'])
    go = os.path.join(d, 'go')

    def victim():
        lk = FL.FileLock(path, reentrant=re[0])
        mon = sys.monitoring
        cnt = [0]

        def on_line(code, line):
            cnt[0] += 1
            if cnt[0] == job['at']:
                log('die', th=1)
                os.kill(os.getpid(), signal.SIGKILL)
        if job.get('at'):
            mon.use_tool_id(3, 'kill')
            mon.register_callback(3, mon.events.LINE, on_line)
            for c in codes_of(FL):
                mon.set_local_events(3, c, mon.events.LINE)
        open(go, 'w').close()
        if job.get('child'):
            lk.acquire()
            log('acq', th=1, o=1, k='bl', tmo=0, poll=0)
            log('ret', th=1, ret='T', f=False)
            p = subprocess.Popen(['/bin/sleep', '60'], close_fds=False)
            with open(go + '.pid', 'w') as f:
                f.write(str(p.pid))
            log('die', th=1)
            os.kill(os.getpid(), signal.SIGKILL)
        for _ in range(job.get('repeat', 1)):
            USES[job['use']](log, lk)
        if job.get('delay') is not None:
            time.sleep(1)          # outlived by the kill
        # it never came to that line event: an ordinary end

    def contender(i, sty, seed):
        lk = FL.FileLock(path)
        loop(log, lk, i, i, random.Random(seed), 5, [sty], False)

    def fresh(i):
        lk = FL.FileLock(path)
        if not n:
            cm = acquire(log, lk, i, i, 'nb')
            if cm:
                release(log, lk, i, i, cm)
        cm = acquire(log, lk, i, i, 'tl' if job['seed'] % 2 and not n
                     else 'bl')
        if cm:
            release(log, lk, i, i, cm)

    cpids = [fork(lambda i=i, s=s: contender(i + 2, s, job['seed'] + i))
             for i, s in enumerate(job['contenders'])]
    vpid = fork(victim)
    killed = False
    if job.get('delay') is not None:
        end = time.monotonic() + 10
        while not os.path.exists(go) and time.monotonic() < end:
            time.sleep(0.0005)
        time.sleep(job['delay'])
        log('die', th=1)
        os.kill(vpid, signal.SIGKILL)
        killed = True
    codes = {}
    ok = wait_all([vpid], LIMIT, codes)
    st = codes.get(vpid, 0)
    if ok and not (os.WIFSIGNALED(st) or st == 0):
        raise RuntimeError('victim failed: %r' % st)
    reached = os.WIFSIGNALED(st)
    if ok:
        f = fork(lambda: fresh(n + 2))
        ok = wait_all([f] + cpids, LIMIT, codes)
    else:
        wait_all(cpids, 0.1)
    ev = log.read()
    if killed:                  # what the victim did after the decision
        k = next(i for i, x in enumerate(ev) if x['e'] == 'die')
        ev = ev[:k + 1] + [x for x in ev[k + 1:] if x.get('th') != 1]
    ev.append({'e': 'end', 't': 0,
               'how': 'done' if ok else 'stuck_after_crash'})
    os.close(log.fd)
    try:
        with open(go + '.pid') as f:
            os.kill(int(f.read()), signal.SIGKILL)
    except (OSError, ValueError):
        pass
    shutil.rmtree(d)
    return {'re': re, 'n': n + 2, 'ev': ev}, reached


def run_job(job):
    if job['kind'] == 'stress':
        yield {'trace': stress(job)}
        return
    ats = job.get('ats')
    if ats is None:             # every line event, until none is left
        k = job['first']
        while True:
            tr, reached = crash(dict(job, at=k, seed=job['seed'] + k))
            yield {'trace': tr, 'sched': {'at': k}}
            if not reached or k > 3000:
                break
            k += job['step']
    else:
        for a in ats:
            tr, _ = crash(dict(job, **a))
            yield {'trace': tr, 'sched': a}
