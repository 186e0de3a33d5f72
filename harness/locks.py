"""FileLock executions recorded as traces for LockTrace.tla.

job 'seq':  op histories one at a time (two worker threads), every single and
            some double OSError injections;
job 'conc': programs of 2..4 threads under detsim, systematic single
            preemptions and random schedules."""
import errno
import os
import random
from zlib import crc32

from lib import detsim
from harness import osfault, lockseq
from harness.lockseq import Worker

TMO, POLL = lockseq.TMO, lockseq.POLL
MS = 1000


def setup(repo):
    import shutil
    import tempfile
    import atexit
    global LD, MOD
    osfault.install()
    LD = detsim.setup_repo(repo, lines=['filelock'])
    osfault.hook_sleep()
    MOD = LD.fresh('filelock')
    d = tempfile.mkdtemp(prefix='aiuti-lock-', dir='/dev/shm'
                         if os.path.isdir('/dev/shm') else None)
    atexit.register(shutil.rmtree, d, ignore_errors=True)
    global DIR
    DIR = d
    osfault.path = os.path.realpath(os.path.join(d, 'lock'))


def lines(on):
    detsim.LINES_ON = on


# style: (kind, timeout ms, how)
STY = {
    'nb': ('nb', -1, lambda lk: lk.acquire(blocking=False)),
    't0': ('tm', 0, lambda lk: lk.acquire(timeout=0)),
    'ts': ('tm', 200, lambda lk: lk.acquire(timeout=TMO)),
    'tp': ('tm', 200, lambda lk: lk.acquire(True, TMO, 0.01)),
    'tq': ('tm', 200, lambda lk: lk.acquire(timeout=TMO, poll_interval=0.5)),
    'tf': ('tm', 200, lambda lk: lk.acquire(False, TMO)),
    'bl': ('bl', -1, lambda lk: lk.acquire()),
    'bn': ('bl', -1, lambda lk: lk.acquire(timeout=-1)),
    'wi': ('bl', -1, None),
    'cb': ('bl', -1, lambda lk: lk.acquire_ctx()),
    'cx': ('tm', 200, lambda lk: lk.acquire_ctx(timeout=TMO)),
    'cn': ('nb', -1, lambda lk: lk.acquire_ctx(blocking=False)),
}
CTX = {'wi', 'cb', 'cx', 'cn'}


class Rec:
    """Records one execution."""

    def __init__(self, s, re, deft=(), spell=0):
        self.s, self.re = s, re
        self.deft = dict(zip((1, 2), deft))     # default timeouts [ms]
        self.ev = []
        self.locks = {}
        for o in (1, 2):
            kw = {'reentrant': True} if re[o - 1] else {}
            if self.deft.get(o, -1) >= 0:
                kw['timeout'] = self.deft[o] / MS
            self.locks[o] = MOD.FileLock(
                osfault.spelling(spell // 8 ** (o - 1)), **kw)
        self.stack = {}
        self.keep = []

    def log(self, e, **kw):
        if not self.s.over:
            kw['e'] = e
            kw['t'] = int(round(self.s.clock * MS)) - self.t0
            self.ev.append(kw)

    def sty(self, o, sty):
        k, tmo, fn = STY[sty]
        if sty in ('bl', 'wi', 'cb') and self.deft.get(o, -1) >= 0:
            k, tmo = 'tm', self.deft[o]
        return k, tmo, fn

    def acquire(self, th, o, sty, inject=False):
        k, tmo, fn = self.sty(o, sty)
        lk = self.locks[o]
        if sty in ('tp', 'tq'):
            poll = 10 if sty == 'tp' else 500
        else:
            poll = 50
        self.log('acq', th=th, o=o, k=k, tmo=tmo, poll=poll)
        f0 = osfault.fired
        cm = None
        try:
            if sty in CTX:
                cm = lk if sty == 'wi' else fn(lk)
                try:
                    cm.__enter__()
                    r = 'T'
                except TimeoutError:
                    r = 'F'
            else:
                v = fn(lk)
                r = 'T' if v is True else 'F' if v is False else 'X'
        except (Exception, osfault.Interrupt) as e:
            self.err = repr(e)
            r = 'X'
        self.log('ret', th=th, ret=r, f=osfault.fired > f0)
        if r == 'T':
            self.stack.setdefault(th, []).append((o, cm))
        return r == 'T'

    def release(self, th, o, force=False):
        """Leave the innermost level this thread has on o."""
        lk = self.locks[o]
        cm = None
        st = self.stack.get(th, [])
        for i in range(len(st) - 1, -1, -1):
            if st[i][0] == o:
                if force:
                    # not finalised here: a generator would call release()
                    self.keep += [x[1] for x in st]
                    st[:] = [x for x in st if x[0] != o]
                else:
                    cm = st.pop(i)[1]
                break
        self.log('rel', th=th, o=o, force=force)
        f0 = osfault.fired
        try:
            if cm is not None:
                cm.__exit__(None, None, None)
            else:
                lk.release(force=True) if force else lk.release()
            r = 'ok'
        except (Exception, osfault.Interrupt) as e:
            self.err = repr(e)
            r = 'X'
        self.log('rrt', th=th, ret=r, f=osfault.fired > f0)

    def probe(self, base):
        self.log('prb', l=[self.locks[o].is_locked is True
                           for o in (1, 2)],
                 fds=osfault.nfds() - base)


# ---------------------------------------------------------------------------
JUMPS = [-5.0, 1.0]
ERRS = [errno.EIO, errno.EAGAIN, errno.ENOLCK, errno.EACCES, errno.EINTR,
        errno.EBADF, errno.ENOENT]


def seq_once(s, ws, case, faults, base):
    """case: {re, hist: [[t, op, o]...]}; faults: {op index: plan}.
    Returns (recorder, [kinds of calls per op])."""
    s.since_clock = 0
    osfault.begin()
    rec = Rec(s, case['re'], case.get('deft', ()), crc32(repr(case).encode()))
    rec.t0 = int(round(s.clock * MS))
    kinds = []
    hung = False

    def do(i, t, fn):
        osfault.begin(faults.get(i))
        osfault.active = True
        r = ws[t].do(fn)
        osfault.active = False
        kinds.append(list(osfault.calls))
        osfault.begin()
        return r is not None

    def owner():
        for t, st in rec.stack.items():
            if st:
                return t, st[-1][0]
        return None

    hist = list(case['hist'])
    for i, (t, op, o) in enumerate(hist):
        own = owner()
        if op in ('rel', 'frc'):
            if own and own[1] == o and own[0] != t:
                kinds.append([])
                continue                 # outside the contract
            ok = do(i, t, lambda: rec.release(t, o, op == 'frc'))
        else:
            if rec.sty(o, op)[0] == 'bl' and own and not (
                    own == (t, o) and case['re'][o - 1]):
                kinds.append([])
                continue                 # would rightly wait for ever
            if own == (t, o) and case['re'][o - 1] \
                    and len(rec.stack[t]) >= 3:
                kinds.append([])
                continue
            ok = do(i, t, lambda: rec.acquire(t, o, op))
        if not ok:
            hung = True
            break
        rec.probe(base)
    n = len(hist)
    if not hung:
        while owner() and not hung:
            t, o = owner()
            hung = not do(n, t, lambda: rec.release(t, o))
            n += 1
            if not hung:
                rec.probe(base)
        for o in (1, 2, 1):
            for t in (1, 2):
                if hung:
                    break
                hung = not do(n, t, lambda: rec.acquire(t, o, 'nb')
                              and rec.release(t, o))
                if not hung:
                    rec.probe(base)
    rec.log('end', how='hang' if hung else 'done')
    return rec, kinds[:len(hist)], hung


def trace(rec, n):
    return {'re': rec.re, 'n': n, 'ev': rec.ev}


def plans(kinds, rng, double):
    sites = []
    for i, ks in enumerate(kinds):
        cnt = {}
        for k in ks:
            c = cnt.get(k, 0)
            cnt[k] = c + 1
            if c < 3:
                sites.append((i, k, c))
    out = []
    for a in sites:
        out.append([a])
    pairs = [[a, b] for x, a in enumerate(sites) for b in sites[x + 1:]]
    # a failing call may lead to other calls: the second fault of the
    # same kind in the same operation
    for i, k, c in sites:
        pairs.append([(i, k, c), (i, k, c + 1)])
        if k == 'lock':
            pairs.append([(i, k, c), (i, 'close', 0)])
    if len(pairs) > double:
        pairs = rng.sample(pairs, double)
    out += pairs
    res = []
    for p in out:
        d = {}
        for i, k, c in p:
            x = rng.random()
            d.setdefault(i, {})[(k, c)] = (
                'intr' if x < .4 and (k in ('open', 'lock') or x < .1)
                or k == 'sleep' and x < .6
                else rng.choice(JUMPS) if k in ('lock', 'sleep') and x < .7
                or k == 'sleep' else rng.choice(ERRS))
        res.append(d)
    return res


def run_seq(job):
    rng = random.Random(job['seed'])
    cases = job['cases']
    todo = list(cases)
    while todo:
        results = []

        def main():
            s = detsim.SCHED
            ws = {t: Worker(s, t) for t in (1, 2)}
            base = osfault.nfds()
            while todo:
                c = todo.pop(0)
                rec, kinds, hung = seq_once(s, ws, c, {}, base)
                results.append(trace(rec, 2))
                if hung:
                    return
                if job.get('double') is None:
                    continue
                for f in plans(kinds, rng, job['double']):
                    rec, _, hung = seq_once(s, ws, c, f, base)
                    results.append(trace(rec, 2))
                    if hung or rec.ev[-2].get('fds'):
                        return
        s = detsim.Sched(max_steps=10 ** 9, max_clock=1e12)
        detsim.LINES_ON = False
        s.run(main, real_timeout=80)
        detsim.LINES_ON = True
        osfault.reap()
        for tr in results:
            yield {'trace': tr, 'sched': None}


# ---------------------------------------------------------------------------
def conc_once(prog, strategy):
    """prog: {re, threads: [[round, ...]]}; round: [style, o, hold, nest]"""
    osfault.begin()
    slow = prog.get('slow', False)
    s = detsim.Sched(strategy, max_steps=600000 if slow else 20000,
                     max_clock=5000)
    rec = Rec(s, prog['re'], prog.get('deft', ()), crc32(repr(prog).encode()))
    rec.t0 = 0
    base = osfault.nfds()
    end = {}

    def body(th, rounds):
        def run():
            for sty, o, hold, nest in rounds:
                if sty == 'sl':
                    s.sleep(hold / MS)
                    continue
                if not rec.acquire(th, o, sty):
                    continue
                depth = 1
                if nest:
                    if prog['re'][o - 1]:
                        if rec.acquire(th, o, nest):
                            depth += 1
                    else:
                        rec.acquire(th, o, 'nb')      # must be refused
                if hold:
                    s.sleep(hold / MS)
                else:
                    s.point()
                if prog.get('force') and depth > 1:
                    rec.release(th, o, True)
                else:
                    for _ in range(depth):
                        rec.release(th, o)
        return run

    def main():
        ths = [s.spawn(body(i + 1, r), 't%d' % i)
               for i, r in enumerate(prog['threads'])]
        # every blocking acquire gets its turn, every other one gives up
        if not s.block(lambda: all(t.done for t in ths),
                       4000.0 if slow else 1000.0):
            end['how'] = 'hang'
            rec.log('end', how='hang')
            return
        for t in ths:
            if t.exc is not None:
                raise t.exc
        rec.probe(base)
        for o in (1, 2):
            if rec.acquire(len(ths) + 1, o, 'nb'):
                rec.release(len(ths) + 1, o)
        rec.probe(base)
        rec.log('end', how='done')
    th = s.run(main, real_timeout=60)
    if s.end != 'done' or (th.exc is not None):
        if th.exc is not None and not isinstance(th.exc, detsim.SimAbort):
            raise th.exc
        s.over = False
        rec.log('end', how='hang')
    osfault.reap()
    return trace(rec, len(prog['threads']) + 1), s


def run_conc(job):
    prog = job['prog']
    tr, s = conc_once(prog, detsim.Strategy())
    yield {'trace': tr, 'sched': {}}
    multi = s.strategy.multi
    rng = random.Random(job['seed'])
    if job.get('single', True):
        pts = [(st, r) for st, n in multi for r in range(min(n, 2))]
        if len(pts) > job.get('max_single', 10 ** 9):
            pts = rng.sample(pts, job['max_single'])
        for st, r in pts:
            tr, _ = conc_once(prog, detsim.Strategy({st: r}))
            yield {'trace': tr, 'sched': {'preempt': {st: r}}}
    for k in range(job.get('double', 0)):
        if len(multi) < 2:
            break
        a, b = rng.choice(multi), rng.choice(multi)
        p = {a[0]: rng.randrange(3), b[0]: rng.randrange(3)}
        tr, _ = conc_once(prog, detsim.Strategy(p))
        yield {'trace': tr, 'sched': {'preempt': p}}
    for k in range(job.get('random', 0)):
        kw = rng.choice([dict(p=0.02), dict(p=0.1), dict(p=0.3),
                         dict(pct=2, pct_len=max(10, s.step)),
                         dict(pct=4, pct_len=max(10, s.step))])
        kw.update(seed=rng.randrange(10 ** 9), order='rand')
        tr, _ = conc_once(prog, detsim.Strategy(**kw))
        yield {'trace': tr, 'sched': kw}


def run_job(job):
    return run_seq(job) if job['kind'] == 'seq' else run_conc(job)
