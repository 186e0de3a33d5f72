"""Executions of to_async_iter / to_sync_iter under detsim, as traces for
BridgeTrace.tla (C16)."""
import gc
import random

from lib import detsim


def setup(repo):
    global LD, A, aio
    LD = detsim.setup_repo(repo, lines=['asyncio'])
    A = LD.fresh('asyncio')
    aio = detsim.asyncio


class E1(Exception):
    pass


class E2(BaseException):
    pass


class E3(E1):
    def __init__(self, a, b):
        super().__init__(a, b)


class E4(Exception):
    """Cannot be made again from its arguments."""

    def __init__(self, *a):
        super().__init__(*a, 'more')


class EqAll:
    """Equal to everything, even to a sentinel."""

    def __eq__(self, o):
        return True

    __hash__ = None


class Falsy:
    def __bool__(self):
        return False


VALS = [None, 0, '', False, 1, 'x', (), [], {}, EqAll(), Falsy(), object(),
        ValueError('a value'), StopIteration, Ellipsis, NotImplemented,
        float('nan')]
EXCS = {'E1': lambda: E1('m', 1), 'E2': lambda: E2('b'),
        'E3': lambda: E3(1, 'z'), 'val': lambda: ValueError('v'),
        'key': lambda: KeyError('k'), 'rt': lambda: RuntimeError('r'),
        'tmo': lambda: TimeoutError('t'), 'os': lambda: OSError(2, 'nope'),
        'gen': lambda: AttributeError('a'), 'empty': lambda: IndexError(),
        'qe': lambda: aio.QueueEmpty(), 'mem': lambda: MemoryError('m'),
        'eof': lambda: EOFError(), 'none': lambda: E1(None),
        'canc': lambda: aio.CancelledError('c'),
        'kbd': lambda: KeyboardInterrupt('k'), 'exit': lambda: SystemExit(3),
        'stopa': lambda: E4(7)}


def name_of(e, mine=None):
    if mine is not None:            # the very one the source has raised
        if e is mine[0]:
            return mine[1]
        # (asyncio makes its own of concurrent.futures' ones)
        if mine[1] not in ('tmo', 'canc'):
            return 'other:' + type(e).__name__
    for k, f in EXCS.items():
        x = f()
        if type(x) is type(e) and x.args == e.args:
            return k
    return 'other:' + type(e).__name__


def vid(x):
    for i, v in enumerate(VALS):
        if x is v:
            return i + 1
    return 0


class SyncIt:
    def __init__(self, g):
        self.g = g

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.g)


class SyncIterable:
    """Iterable, but no iterator."""

    def __init__(self, g):
        self.g = g

    def __iter__(self):
        return self.g


class AIt:
    def __init__(self, g):
        self.g = g

    def __aiter__(self):
        return self

    def __anext__(self):
        return self.g.__anext__()


class AIterable:
    def __init__(self, g):
        self.g = g

    def __aiter__(self):
        return self.g


class Run:
    """prog: {dir, bridges: [{shape, xs: [value index], fin, durs: [ms],
    gaps: [ms], loop}], side}"""

    def __init__(self, prog, strategy):
        self.prog = prog
        self.raised = {}
        self.got = {}               # bridge -> elements received
        self.x = prog.get('x', 1)       # how much slower than usual
        self.s = detsim.Sched(strategy,
                              max_steps=60000 if self.x == 1 else 600000,
                              max_clock=400.0 * self.x,
                              busy=4000 if all(len(b['xs']) < 50 for b in
                                               prog['bridges']) else 50000)

    def steps(self, i, b):
        """(element | exception) after its duration, synchronously"""
        for n, v in enumerate(b['xs']):
            d = b['durs'][n % len(b['durs'])] if b['durs'] else 0
            yield d, v, None
        d = b['durs'][len(b['xs']) % len(b['durs'])] if b['durs'] else 0
        yield d, None, b['fin']

    def source(self, i, b):
        s = self.s

        def gen():
            for n, (d, v, fin) in enumerate(self.steps(i, b)):
                if d:
                    s.sleep(d / 1000)
                if b.get('lock'):    # until the consumer has all of them
                    s.block(lambda: self.got.get(i, 0) >= n)
                if v is None:
                    if fin != 'stop':
                        self.raised[i] = EXCS[fin](), fin
                        raise self.raised[i][0]
                    return
                s.log('mk', i=i)
                yield VALS[v - 1]
        shape = b['shape']
        if shape == 'gen':
            return gen()
        if shape == 'iter':
            return SyncIt(gen())
        if shape == 'iterable':
            return SyncIterable(gen())
        xs = [VALS[v - 1] for v in b['xs']]
        for v in xs:
            s.log('mk', i=i)
        return {'list': xs, 'listiter': iter(xs), 'tuple': tuple(xs),
                'map': map(lambda x: x, xs)}[shape]

    def asource(self, i, b, loop):
        s = self.s

        async def gen():
            for n, (d, v, fin) in enumerate(self.steps(i, b)):
                while b.get('lock') and self.got.get(i, 0) < n:
                    await aio.sleep(.01)
                if loop is not None:     # only works on that very loop
                    f = loop.create_future()
                    loop.call_later(d / 1000, f.set_result, None)
                    await f
                elif d:
                    await aio.sleep(d / 1000)
                if v is None:
                    if fin != 'stop':
                        self.raised[i] = EXCS[fin](), fin
                        raise self.raised[i][0]
                    return
                s.log('mk', i=i)
                yield VALS[v - 1]
        return {'gen': lambda g: g, 'iter': AIt,
                'iterable': AIterable}[b['shape']](gen())

    async def consume(self, i, b):
        s = self.s
        src = self.source(i, b)
        how = 'stop'
        n = 0
        it = A.to_async_iter(src)
        try:
            async for x in it:
                s.log('g', i=i, v=vid(x))
                self.got[i] = n + 1
                g = b['gaps'][n % len(b['gaps'])] if b['gaps'] else 0
                n += 1
                if g:
                    await aio.sleep(g / 1000)
        except BaseException as e:
            if isinstance(e, (detsim.SimAbort, GeneratorExit)):
                raise
            how = name_of(e, self.raised.get(i))
        s.log('x', i=i, how=how)

    def sconsume(self, i, b):
        s = self.s
        how = 'stop'
        n = 0
        kw = {}
        if b.get('loop'):
            kw['loop'] = detsim.SimLoop()
        src = self.asource(i, b, kw.get('loop'))
        try:
            for x in A.to_sync_iter(src, **kw):
                s.log('g', i=i, v=vid(x))
                self.got[i] = n + 1
                g = b['gaps'][n % len(b['gaps'])] if b['gaps'] else 0
                n += 1
                if g:
                    s.sleep(g / 1000)
        except BaseException as e:
            if isinstance(e, (detsim.SimAbort, GeneratorExit)):
                raise
            how = name_of(e, self.raised.get(i))
        s.log('x', i=i, how=how)

    async def amain(self):
        s = self.s
        tasks = [aio.ensure_future(self.consume(i + 1, b))
                 for i, b in enumerate(self.prog['bridges'])]
        n = 0
        dt = 0.05 * self.x
        t0 = s.clock
        while not all(t.done() for t in tasks) and n < 4000:
            n += 1
            await aio.sleep(t0 + n * dt - s.clock)
            s.log('tick', d=int(round((t0 + n * dt) * 1000)))
            if s.clock > t0 + n * dt + 1e-6:
                n = int((s.clock - t0) / dt + 1e-6)
        for t in tasks:
            await t
        await aio.sleep(1)

    def go(self):
        s, prog = self.s, self.prog
        mine = []

        def main():
            bs = prog['bridges']
            if prog['dir'] == 'async':
                loop = detsim.SimLoop()
                loop.set_exception_handler(lambda *a: None)
                aio.set_event_loop(loop)
                loop.run_until_complete(self.amain())
            else:
                for i, b in enumerate(bs[1:]):
                    mine.append(s.spawn(
                        lambda i=i, b=b: self.sconsume(i + 2, b), 'c'))
                if bs[0].get('inloop'):     # called within a running loop
                    loop = detsim.SimLoop()
                    aio.set_event_loop(loop)

                    async def inside():
                        self.sconsume(1, bs[0])
                    loop.run_until_complete(inside())
                else:
                    self.sconsume(1, bs[0])
                s.block(lambda: all(t.done for t in mine))
                s.sleep(1)
            n = sum(1 for t in s.threads[1:] if not t.done and t not in mine)
            s.log('alive', n=n)
        th = s.run(main, real_timeout=60)
        if th.exc is not None and not isinstance(th.exc, detsim.SimAbort):
            raise th.exc
        for t in mine:
            if t.exc is not None and not isinstance(t.exc, detsim.SimAbort):
                raise t.exc
        ev = s.events
        ev.append({'e': 'end', 'how': s.end, 't': int(round(s.clock * 1000))})
        return {'src': [{'xs': b['xs'], 'fin': b['fin']}
                        for b in prog['bridges']], 'ev': ev}


_n = 0


def once(prog, strategy):
    global _n
    _n += 1
    if _n % 200 == 0:
        gc.collect()
    r = Run(prog, strategy)
    return r.go(), r.s


def run_job(job):
    for prog in job['progs']:
        tr, s = once(prog, detsim.Strategy())
        yield {'trace': tr, 'sched': {}}
        multi, steps = s.strategy.multi, s.step
        rng = random.Random(job['seed'])
        pts = [(st, r) for st, n in multi for r in range(min(n, 2))]
        if len(pts) > job.get('single', 0):
            pts = rng.sample(pts, job.get('single', 0))
        for st, r in pts:
            tr, _ = once(prog, detsim.Strategy({st: r}))
            yield {'trace': tr, 'sched': {'preempt': {st: r}}}
        for k in range(job.get('double', 0)):
            if len(multi) < 2:
                break
            p = {rng.choice(multi)[0]: rng.randrange(3) for _ in range(2)}
            tr, _ = once(prog, detsim.Strategy(p))
            yield {'trace': tr, 'sched': {'preempt': p}}
        for k in range(job.get('random', 0)):
            kw = rng.choice([dict(p=0.05), dict(p=0.2), dict(p=0.5),
                             dict(pct=2, pct_len=max(10, steps)),
                             dict(pct=4, pct_len=max(10, steps))])
            kw.update(seed=rng.randrange(10 ** 9), order='rand')
            tr, _ = once(prog, detsim.Strategy(**kw))
            yield {'trace': tr, 'sched': kw}
