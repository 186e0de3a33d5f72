"""Executions of buffer_until_timeout under detsim, as traces for
BufferTrace.tla (C03, C07, C08)."""
import gc
import random

from lib import detsim


def setup(repo):
    global LD, A, aio
    LD = detsim.setup_repo(repo, lines=['asyncio'])
    A = LD.fresh('asyncio')
    aio = detsim.asyncio


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


def raising(kind):
    if kind == 'exc':
        return Boom()
    if kind == 'base':
        return BoomBase()
    if kind == 'tmo':
        return TimeoutError()
    if kind == 'cancel':
        return aio.CancelledError()
    if kind == 'rt':
        return RuntimeError('x')
    if kind == 'stop':
        return StopAsyncIteration()
    return ValueError(kind)


HORIZON = 120.0


class OddArg:
    """Falsy; would be awaited or iterated if somebody tried."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __iter__(self):
        raise Boom

    __aiter__ = __await__ = __iter__


class OddFunc(OddArg):
    def __call__(self):
        raise Boom


def odd(x):
    return {1: None, 2: 0, 3: '', 4: (), 5: 'ab', 6: OddArg(), 7: Boom(),
            8: OddFunc(), 9: frozenset({1}), 10: aio.CancelledError()
            }.get(x, x)


class AIter:
    """A plain asynchronous iterator."""

    def __init__(self, gen):
        self.g = gen

    def __aiter__(self):
        return self

    def __anext__(self):
        return self.g.__anext__()


class Run:
    """prog: {tmo, form, funcs: [[dur, out], ...], own: [action...],
    foreign: [[action...], ...], shut: None | ms}
    a function outcome may be followed by what the function does to its set;
    inner: [[invocation, 'start' | 'end', action], ...] done by the function;
    hops: every own action is done by its own task, after so many loop cycles;
    x: how much slower than usual everything is;
    same: there are only so many different arguments; odd: arguments which are not plain numbers
    action: [at, 'call'] | [at, 'await', delay, fail] |
            [at, 'map', shape, n, [delays], failpos, fail] | 'amap' alike |
            [at, 'wait', cancel, blocking, how = '' | 'any' | ms to give up]"""

    def __init__(self, prog, strategy):
        self.prog = prog
        self.x = prog.get('x', 1)
        self.s = detsim.Sched(strategy, max_steps=40000,
                              max_clock=2000.0 * self.x,
                              busy=4000 if len(prog['own']) < 50 else 30000)
        self.nfunc = 0
        self.subs = []
        self.waits = []
        self.nx = 0
        self.tasks = []
        self.ok = {}
        self.ids = {}

    def val(self, x):
        v = odd(x) if self.prog.get('odd') else x
        self.ids[v] = x
        return v

    async def func(self, args):
        s = self.s
        xs = sorted(self.ids.get(a, 0) for a in args)
        s.log('fs', xs=xs)
        n = self.nfunc
        self.nfunc += 1
        fs = self.prog['funcs']
        dur, out, mut = (list(fs[n] if n < len(fs) else (0, 'ok'))
                         + [None])[:3]
        inner = [i for i in self.prog.get('inner', ()) if i[0] == n]
        try:
            s.point()
            if mut == 'clear':
                args.clear()
            elif mut == 'pop':
                args.pop()
            elif mut == 'add':
                args.add('never submitted')
            for _, when, a in inner:
                if when == 'start':
                    self.submit(self.buf, 0, a)
            try:
                if dur < 0:
                    await aio.sleep(0)
                elif dur:
                    await aio.sleep(dur / 1000)
            except aio.CancelledError:
                if out != 'swallow':     # cleans up and returns normally
                    raise
            for _, when, a in inner:
                if when == 'end':
                    self.submit(self.buf, 0, a)
            if out not in ('ok', 'swallow'):
                raise raising(out)
        except GeneratorExit:
            raise
        except BaseException:
            s.log('fe', how='exc')
            raise
        s.log('fe', how='ok')

    def new(self, n):
        xs = list(range(self.nx + 1, self.nx + n + 1))
        self.nx += n
        k = self.prog.get('same')        # the same arguments again and again
        return [(x - 1) % k + 1 for x in xs] if k else xs

    def submit(self, buf, th, a):
        s = self.s
        kind = a[1]
        sid = len(self.subs) + 1
        if kind == 'call':
            xs = self.new(1)
            arg = self.val(xs[0])
            fn = buf
        elif kind == 'await':
            xs = self.new(1)
            delay, fail, shape = a[2:5]
            x = xs[0]

            async def aw():
                if delay:
                    await aio.sleep(delay / 1000)
                if fail:
                    raise raising(fail)
                return self.val(x)
            if shape == 'task' and th == 0:
                arg = aio.get_running_loop().create_task(aw())
                arg.add_done_callback(
                    lambda t: t.cancelled() or t.exception())
            else:
                arg = aw()
            if fail:
                xs = []
            fn = buf.await_
        else:
            shape, n, delays, pos, fail = a[2:7]
            xs = self.new(n)
            all_ = list(xs)
            if pos is not None and pos < n:
                xs = xs[:pos]
            elif pos is not None:
                pos = n

            if kind == 'map':
                def gen():
                    for i, x in enumerate(all_):
                        if i == pos:
                            raise raising(fail)
                        d = delays[i % len(delays)] if delays else 0
                        if d:
                            s.sleep(d / 1000)
                        yield self.val(x)
                    if pos == n:
                        raise raising(fail)
                if shape == 'list':
                    arg, xs = [self.val(x) for x in all_], list(all_)
                elif shape == 'iter':
                    arg = iter([self.val(x) for x in all_])
                    xs = list(all_)
                elif shape == 'range' and self.prog.get('same'):
                    arg, xs = tuple(self.val(x) for x in all_), list(all_)
                elif shape == 'range':
                    for x in all_:
                        self.ids[x] = x
                    arg = range(all_[0], all_[0] + n) if n else range(0)
                    xs = list(all_)
                else:
                    arg = gen()
                fn = buf.map
            else:
                async def agen():
                    for i, x in enumerate(all_):
                        if i == pos:
                            raise raising(fail)
                        d = delays[i % len(delays)] if delays else 0
                        if d:
                            await aio.sleep(d / 1000)
                        yield self.val(x)
                    if pos == n:
                        raise raising(fail)
                arg = agen() if shape != 'iter' else AIter(agen())
                fn = buf.amap
        self.subs.append({'th': th, 'xs': xs})
        s.log('sub', s=sid)
        fn(arg)
        s.log('subd', s=sid)

    def foreign(self, th, acts, box):
        def run():
            s = self.s
            s.block(lambda: 'buf' in box)
            buf = box['buf']
            loop = None
            for a in acts:
                if s.clock < a[0] / 1000:
                    s.sleep(a[0] / 1000 - s.clock)
                if a[1] == 'wait':
                    if loop is None:
                        loop = detsim.SimLoop()
                        aio.set_event_loop(loop)
                    w = self.wait_id(th)

                    async def wait():
                        s.log('ws', w=w)
                        await buf.wait_from_anywhere(cancel=a[2])
                        s.log('we', w=w)
                    loop.run_until_complete(wait())
                else:
                    self.submit(buf, th, a)
            if loop is not None:
                loop.close()
        return run

    def wait_id(self, th):
        self.waits.append(th)
        return len(self.waits)

    async def main(self, box, ths):
        s, prog = self.s, self.prog
        if 'buf' not in box:
            box['buf'] = self.make()
        buf = self.buf = box['buf']

        async def wait(cancel, how=''):
            w = self.wait_id(0)
            s.log('ws', w=w)
            t0 = s.clock
            if how == 'any':
                await buf.wait_from_anywhere(cancel=cancel)
            elif how:
                try:
                    await aio.wait_for(buf.wait(cancel=cancel), how / 1000)
                except aio.TimeoutError:
                    if s.clock < t0 + how / 1000 - 1e-6:
                        raise
                    s.log('wc', w=w)
                    return
            else:
                await buf.wait(cancel=cancel)
            s.log('we', w=w)

        async def one(a, hops):
            d = a[0] / 1000 - s.clock
            if d > 0:
                await aio.sleep(d)
            for _ in range(hops):
                await aio.sleep(0)
            if a[1] == 'wait':
                await wait(a[2], *a[4:5])
            else:
                self.submit(buf, 0, a)
        if 'hops' in prog:
            self.tasks += [aio.ensure_future(one(a, h))
                           for a, h in zip(prog['own'], prog['hops'])]
        for a in () if 'hops' in prog else prog['own']:
            d = a[0] / 1000 - s.clock
            if d > 0:
                await aio.sleep(d)
            if a[1] == 'wait':
                t = aio.ensure_future(wait(a[2], *a[4:5]))
                self.tasks.append(t)
                if a[3]:
                    await t
            else:
                self.submit(buf, 0, a)
        if prog['shut'] is not None:
            d = prog['shut'] / 1000 - s.clock
            if d > 0:
                await aio.sleep(d)
            return
        if ths:      # nothing wakes up this loop in between
            fut = aio.get_running_loop().create_future()
            box['fut'] = fut
            await fut
            return
        end = s.clock + HORIZON * self.x
        while s.clock < end and not all(t.done() for t in self.tasks):
            await aio.sleep(self.x)
        await aio.sleep(HORIZON / 2 * self.x)

    def ender(self, box, ths):
        """Ends a run once everybody is done and time has passed."""
        def run():
            s = self.s
            s.block(lambda: 'fut' in box)
            fut = box['fut']
            end = s.clock + HORIZON * self.x
            while s.clock < end and not (
                    all(t.done for t in ths)
                    and all(t.done() for t in self.tasks)):
                s.sleep(self.x)
            s.sleep(HORIZON / 2 * self.x)
            fut.get_loop().call_soon_threadsafe(fut.set_result, None)
        return run

    def make(self):
        if self.prog.get('form') == 'deco':
            return A.buffer_until_timeout(
                timeout=self.prog['tmo'] / 1000)(self.func)
        return A.buffer_until_timeout(self.func,
                                      timeout=self.prog['tmo'] / 1000)

    def go(self):
        s, prog = self.s, self.prog
        box = {}

        def main():
            loop = detsim.SimLoop()
            loop.set_exception_handler(lambda *a: None)
            aio.set_event_loop(loop)
            if prog.get('before'):     # created before the loop runs
                box['buf'] = self.make()
            ths = [s.spawn(self.foreign(i + 1, acts, box), 'f%d' % i)
                   for i, acts in enumerate(prog['foreign'])]
            if ths and prog['shut'] is None:
                s.spawn(self.ender(box, ths), 'ender')
            loop.run_until_complete(self.main(box, ths))
            s.log('shut', early=prog['shut'] is not None)
            for t in self.tasks:
                if t.done() and not t.cancelled() and t.exception():
                    raise t.exception()
            todo = aio.all_tasks(loop)
            for t in todo:
                t.cancel()
            loop.run_until_complete(aio.gather(*todo,
                                               return_exceptions=True))
            loop.run_until_complete(loop.shutdown_asyncgens())
            loop.run_until_complete(loop.shutdown_default_executor())
            loop.close()
            aio.set_event_loop(None)
        th = s.run(main, real_timeout=60)
        if th.exc is not None and not isinstance(th.exc, detsim.SimAbort):
            raise th.exc
        ev = s.events
        ev.append({'e': 'end', 'how': s.end,
                   't': int(round(s.clock * 1000))})
        imm = all(a[1] == 'call' or (a[1] == 'map' and not any(a[4] or ())
                                     and a[5] is None)
                  or a[1] == 'wait' and not a[2]
                  for acts in [prog['own'], *prog['foreign'],
                               [i[2] for i in prog.get('inner', ())]]
                  for a in acts)
        for i, e in enumerate(ev):
            if e['e'] == 'sub':
                self.subs[e['s'] - 1]['i'] = i + 1
        for x in self.subs:
            x.setdefault('i', 0)
        return {'nx': self.nx, 'maxxs': max(
                    [len(x['xs']) for x in self.subs] or [0]),
                'tmo': prog['tmo'], 'subs': self.subs, 'waits': self.waits,
                'pure': imm, 'ev': ev}


_n = 0


def once(prog, strategy):
    global _n
    _n += 1
    if _n % 200 == 0:
        gc.collect()
    r = Run(prog, strategy)
    return r.go(), r.s


def run_job(job):
    if 'progs' in job:               # run-to-block schedule only
        detsim.LINES_ON = False
        for p in job['progs']:
            tr, s = once(p, detsim.Strategy())
            yield {'trace': tr, 'sched': {}}
        detsim.LINES_ON = True
        return
    prog = job['prog']
    tr, s = once(prog, detsim.Strategy())
    yield {'trace': tr, 'sched': {}}
    multi, steps = s.strategy.multi, s.step
    rng = random.Random(job['seed'])
    pts = [(st, r) for st, n in multi for r in range(min(n, 2))]
    if len(pts) > job.get('single', 0):
        pts = rng.sample(pts, job.get('single', 0))
    for st, r in pts:
        tr, _ = once(prog, detsim.Strategy({st: r}))
        yield {'trace': tr, 'sched': {'preempt': {st: r}}}
    for k in range(job.get('double', 0)):
        if len(multi) < 2:
            break
        a, b = rng.choice(multi), rng.choice(multi)
        p = {a[0]: rng.randrange(3), b[0]: rng.randrange(3)}
        tr, _ = once(prog, detsim.Strategy(p))
        yield {'trace': tr, 'sched': {'preempt': p}}
    for k in range(job.get('random', 0)):
        kw = rng.choice([dict(p=0.02), dict(p=0.1), dict(p=0.3),
                         dict(pct=2, pct_len=max(10, steps)),
                         dict(pct=4, pct_len=max(10, steps))])
        kw.update(seed=rng.randrange(10 ** 9), order='rand')
        tr, _ = once(prog, detsim.Strategy(**kw))
        yield {'trace': tr, 'sched': kw}
