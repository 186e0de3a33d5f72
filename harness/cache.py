"""Executions of threadsafe_async_cache under detsim, as traces for
CacheTrace.tla (C01, C05, C06)."""
import contextvars
import gc
import random
from collections.abc import MutableMapping

from lib import detsim

DEBUG = False
CALL = contextvars.ContextVar('call', default=0)


def setup(repo):
    global LD, A, aio
    LD = detsim.setup_repo(repo, lines=['asyncio'])
    A = LD.fresh('asyncio')
    aio = detsim.asyncio


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


class Odd(dict):
    pass


class Mapping(MutableMapping):
    """A retaining mapping which is not a dict; get takes two steps."""

    def __init__(self):
        self.d = []

    def __getitem__(self, k):
        for a, v in self.d:
            if a == k:
                return v
        raise KeyError(k)

    def __setitem__(self, k, v):
        for i, (a, _) in enumerate(self.d):
            if a == k:
                self.d[i] = (k, v)
                return
        self.d.append((k, v))

    def __delitem__(self, k):
        self.d[:] = [x for x in self.d if x[0] != k]

    def __iter__(self):
        return iter([a for a, _ in self.d])

    def __len__(self):
        return len(self.d)


class Evicting(Mapping):
    """Drops entries, either on demand or beyond its capacity; threads may
    be switched around (not within) its operations."""

    def __init__(self, run, cap):
        super().__init__()
        self.run = run
        self.cap = cap
        self.tag = {}           # id of value -> key of the program

    def drop(self, entries):
        if entries:
            self.d = [x for x in self.d if not any(x is e for e in entries)]
            self.run.s.log('evict', ks=sorted(
                {self.tag[id(v)] for _, v in entries}))

    def __getitem__(self, k):
        self.run.s.point()
        return super().__getitem__(k)

    def __contains__(self, k):
        self.run.s.point()
        r = any(a == k for a, _ in self.d)
        self.run.s.point()
        return r

    def __setitem__(self, k, v):
        self.run.s.point()
        # who stores it tells which of the program's keys that is
        self.tag[id(v)] = self.run.calls[CALL.get() - 1][0]
        super().__setitem__(k, v)
        if self.cap is not None:
            self.drop(self.d[:max(0, len(self.d) - self.cap)])
        self.run.s.point()


EXC = {'exc': Boom, 'key': KeyError, 'tmo': TimeoutError,
       'rt': RuntimeError, 'base': BoomBase, 'stop': StopAsyncIteration}


class Run:
    def __init__(self, prog, strategy, gc_at=None):
        self.prog = prog
        kw = dict(max_steps=400000, busy=100000) if prog.get('big') \
            else dict(max_steps=12000)
        self.s = detsim.Sched(strategy, max_clock=2000.0, **kw)
        self.s.gc_at = gc_at
        self.ninv = 0
        self.count = {}
        self.calls = []
        self.values = {}
        self.excs = {}
        self.keep = []
        self.nloops = 0
        m = prog.get('map')
        self.nones = prog.get('none', False)
        self.first = {}
        if 'evict' in prog:
            self.m = Evicting(self, prog.get('cap'))
            self.f = A.threadsafe_async_cache(self.func, cache=self.m)
        elif m == 'none':
            self.f = A.threadsafe_async_cache(self.func)
        else:
            self.f = A.threadsafe_async_cache(
                self.func, cache={'dict': dict, 'odd': Odd,
                                  'map': Mapping}[m]())

    async def func(self, key):
        s = self.s
        self.ninv += 1
        i = self.ninv
        n = self.count.get(key, 0)
        self.count[key] = n + 1
        beh = self.prog['funcs'][key - 1]
        dur, out = beh[min(n, len(beh) - 1)]
        s.log('inv', i=i, key=key, loop=aio.get_running_loop().label,
              c=CALL.get())
        s.point()
        try:
            if dur < 0:
                await aio.sleep(0)
            elif dur:
                await aio.sleep(dur / 1000)
        except GeneratorExit:
            raise
        except BaseException:
            s.log('fin', i=i, how='cancel')
            raise
        s.point()
        if out != 'ok':
            s.log('fin', i=i, how='exc')
            e = EXC[out](i)
            self.excs[id(e)] = i
            self.keep.append(e)
            raise e
        s.log('fin', i=i, how='ok')
        # falsy and None-like results are results too
        self.first.setdefault(key, i)
        if self.nones:
            return None
        v = (Falsy([i]), [i], Boom(i), ValueAw(i), 0.5 + i, KeyError(i),
             {'i': i})[i % 7]
        self.values[id(v)] = i
        self.keep.append(v)
        return v

    def caller(self, key, loop):
        c = len(self.calls) + 1
        self.calls.append([key, loop.label])

        async def call():
            s = self.s
            CALL.set(c)
            s.log('call', c=c)
            try:
                r = await self.f(key)
            except GeneratorExit:
                raise
            except aio.CancelledError as e:
                s.log('ret', c=c, how='cancel', v=0)
                raise
            except BaseException as e:
                i = self.excs.get(id(e))
                if i:
                    s.log('ret', c=c, how='exc', v=i)
                else:
                    s.log('ret', c=c, how='other', v=0)
                    self.other = repr(e)
                    if DEBUG:
                        import traceback
                        traceback.print_exc()
            else:
                s.log('ret', c=c, how='val', v=self.first.get(key, 0)
                      if self.nones and r is None
                      else self.values.get(id(r), 0))
        return c, call

    def phase(self, ph):
        s = self.s
        self.nloops += 1
        loop = detsim.SimLoop()
        loop.label = self.nloops
        loop.set_exception_handler(lambda *a: None)
        self.keep.append(loop)
        tasks = {}

        async def one(key, at, cancel_at):
            if at:
                await aio.sleep(at / 1000)
            c, call = self.caller(key, loop)
            t = aio.ensure_future(call())
            tasks[c] = t
            if cancel_at is not None:
                if cancel_at:
                    await aio.sleep(cancel_at / 1000)
                else:
                    await aio.sleep(0)
                if not t.done():
                    s.log('cancel', c=c)
                    t.cancel()
            await aio.wait({t})

        async def main():
            aio.get_running_loop()
            ts = [aio.ensure_future(one(*x)) for x in ph['calls']]
            if ph['leave'] is None:
                if ts:
                    await aio.wait(ts)
            else:
                await aio.sleep(ph['leave'] / 1000)

        aio.set_event_loop(loop)
        after = ph['after']
        if len(ph['calls']) == 1 and ph['leave'] is None \
                and ph.get('direct'):
            key, at, _ = ph['calls'][0]
            c, call = self.caller(key, loop)
            if at:
                s.sleep(at / 1000)
            try:
                loop.run_until_complete(call())
            except aio.CancelledError:
                pass             # recorded as the outcome of the call
        else:
            loop.run_until_complete(main())
        s.point()
        if ph.get('gap'):
            s.sleep(ph['gap'] / 1000)
        if after == 'shutdown':
            todo = aio.all_tasks(loop)
            if todo:
                for c, t in tasks.items():
                    if not t.done():
                        s.log('cancel', c=c)
                for t in todo:
                    t.cancel()
                loop.run_until_complete(aio.gather(*todo,
                                                   return_exceptions=True))
            loop.run_until_complete(loop.shutdown_asyncgens())
            loop.close()
        elif after == 'close':
            loop.close()
        elif after == 'drop':
            self.keep = [x for x in self.keep if x is not loop]
        aio.set_event_loop(None)

    def thread(self, th):
        def run():
            if th.get('start'):
                self.s.sleep(th['start'] / 1000)
            for ph in th['phases']:
                self.phase(ph)
        return run

    def evictor(self):
        for at, key in self.prog['evict']:
            if at > self.s.clock * 1000:
                self.s.sleep(at / 1000 - self.s.clock)
            self.s.point()
            m = self.m
            m.drop([x for x in m.d if key in (0, m.tag[id(x[1])])])
            self.s.point()

    def go(self):
        s = self.s

        def main():
            ths = [s.spawn(self.thread(t), 't%d' % i)
                   for i, t in enumerate(self.prog['threads'])]
            if self.prog.get('evict'):
                ths.append(s.spawn(self.evictor, 'ev'))
            s.block(lambda: all(t.done for t in ths))
            for t in ths:
                if t.exc is not None:
                    raise t.exc
        th = s.run(main, real_timeout=60)
        ev = [e for e in s.events if e['e'] != 'closed']
        how = s.end
        if th.exc is not None and not isinstance(th.exc, detsim.SimAbort):
            raise th.exc
        ev.append({'e': 'end', 'how': how, 't': int(round(s.clock * 1000))})
        return {'nkeys': len(self.prog['funcs']), 'calls': self.calls,
                'ev': ev}


class ValueAw(list):
    """A result which could be awaited"""

    def __init__(self, i):
        super().__init__([i])

    def __await__(self):
        yield


class Falsy(list):
    def __bool__(self):
        return False


def once(prog, strategy, gc_at=None):
    r = Run(prog, strategy, gc_at)
    tr = r.go()
    return tr, r.s


_n = 0


def tick():
    global _n
    _n += 1
    if _n % 200 == 0:
        gc.collect()


def run_job(job):
    prog = job['prog']
    tr, s = once(prog, detsim.Strategy())
    yield {'trace': tr, 'sched': {}}
    multi = s.strategy.multi
    steps = s.step
    rng = random.Random(job['seed'])
    pts = [(st, r) for st, n in multi for r in range(min(n, 2))]
    if len(pts) > job.get('single', 0):
        pts = rng.sample(pts, job.get('single', 0))
    for st, r in pts:
        tr, _ = once(prog, detsim.Strategy({st: r}))
        tick()
        yield {'trace': tr, 'sched': {'preempt': {st: r}}}
    for k in range(job.get('double', 0)):
        if len(multi) < 2:
            break
        a, b = rng.choice(multi), rng.choice(multi)
        p = {a[0]: rng.randrange(3), b[0]: rng.randrange(3)}
        tr, _ = once(prog, detsim.Strategy(p))
        tick()
        yield {'trace': tr, 'sched': {'preempt': p}}
    for k in range(job.get('random', 0)):
        kw = rng.choice([dict(p=0.02), dict(p=0.1), dict(p=0.3),
                         dict(pct=2, pct_len=max(10, steps)),
                         dict(pct=4, pct_len=max(10, steps))])
        kw.update(seed=rng.randrange(10 ** 9), order='rand')
        g = rng.randrange(1, steps) if job.get('gc') and \
            rng.random() < .3 else None
        tr, _ = once(prog, detsim.Strategy(**kw), g)
        tick()
        yield {'trace': tr, 'sched': dict(kw, gc=g)}
    if job.get('gc'):
        for k in range(min(job['gc'], steps)):
            g = rng.randrange(1, steps)
            st = detsim.Strategy({})
            tr, _ = once(prog, st, g)
            yield {'trace': tr, 'sched': dict(gc=g)}
