"""Executions of AsyncBackgroundBatcher in virtual time, as traces for
BatcherTrace.tla (C04, C09, C10, C11)."""
import asyncio
import random
import sys

from lib import vloop

A = None


def setup(repo):
    global A
    import logging
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, repo)
    import aiuti.asyncio as m
    A = m


class Arg:
    """Identified by the call; str() is the default key."""

    def __init__(self, c, key):
        self.c = c
        self.key = key

    def __str__(self):
        return self.key

    def __repr__(self):
        return f'<arg {self.c}>'

    def __eq__(self, o):
        return isinstance(o, Arg)

    def __hash__(self):
        return 1


class Val:
    def __init__(self, u, falsy):
        self.u = u
        self.falsy = falsy

    def __bool__(self):
        return not self.falsy

    def __eq__(self, o):
        return isinstance(o, Val)

    __hash__ = None


class Exc(Exception):
    def __eq__(self, o):
        return isinstance(o, Exc)

    __hash__ = None

    def __bool__(self):
        return False


class KeyExc(KeyError):
    pass


class AttrExc(AttributeError):
    pass


class IterExc(StopAsyncIteration):
    pass


class TmoExc(TimeoutError):
    pass


class BaseExc(BaseException):
    pass


EXC = dict(exc=Exc, key=KeyExc, attr=AttrExc, tmo=TmoExc, base=BaseExc,
           cancel=asyncio.CancelledError, stop=StopIteration, astop=IterExc,
           val=ValueError, rt=RuntimeError, qe=asyncio.QueueEmpty,
           inv=asyncio.InvalidStateError)


class Trap:
    """Not to be awaited or iterated, just a value."""

    def __await__(self):
        raise Exc

    __iter__ = __aiter__ = __await__


# values, although they look like something else
VALUES = dict(none=lambda: None, cls=lambda: Exc, trap=Trap,
              baseobj=BaseExc, cancobj=asyncio.CancelledError,
              fut=lambda: asyncio.get_running_loop().create_future(),
              tup=lambda: ('1', Exc()))
# what cannot be passed on unchanged
ODD = {'cancel', 'stop', 'astop'}


class Run:
    """hops: loop cycles after which calls are made; same: what several keys
    get; twin: another batcher is in use; inner: keys of calls made by a batch
    prog: size, conc, bto, ret, form, calls: [[at, str, key, cancel]],
    batches: [behaviour...], max: [[at, n]...];
    behaviour: pre, order, step, post, acts, kind, fn
    cancel: None | ['at', ms] | ['wf', ms]"""

    def __init__(self, prog):
        self.p = prog
        self.ev = []
        self.kid = {}
        self.u = 0
        self.reg = {}
        self.ids = {}
        self.nb = 0
        self.open = True

    def log(self, e, **kw):
        if self.open:
            kw.update(e=e, t=vloop.ms(self.loop))
            self.ev.append(kw)

    def key(self, name):
        return self.kid.setdefault(name, len(self.kid) + 1)

    def tag(self, x):
        if id(x) not in self.ids:
            self.u += 1
            self.reg[self.u] = x        # keeps it
            self.ids[id(x)] = self.u
        return self.ids[id(x)]

    def func(self):
        p = self.p
        beh = [dict(b) for b in p['batches']]

        def begin(batch):
            self.nb += 1
            b = self.nb
            items = list(batch)
            self.log('bs', b=b, xs=[
                {'c': getattr(a, 'c', 0), 'k': self.key(k)}
                for k, a in items])
            how = beh[(b - 1) % len(beh)] if beh else {}
            if how.get('eat') and isinstance(batch, list):
                batch.clear()       # it belongs to the function
            return b, items, how

        async def sleep(t):
            if t < 0:
                await asyncio.sleep(0)
            elif t:
                await asyncio.sleep(t / 1000)

        def fail(b, kind, sync=False):
            e = EXC[kind]()
            u = self.tag(e)
            odd = kind in ODD and not (kind == 'astop' and sync)
            self.log('rs', b=b, u=u, how='any' if odd else 'exc')
            return e

        async def gen(batch):
            b, items, how = begin(batch)
            try:
                for name in how.get('inner', ()):
                    self.extra(name)
                await sleep(how.get('pre', 0))
                order = list(range(len(items)))
                o = how.get('order', 'fwd')
                if o == 'rev':
                    order.reverse()
                elif o != 'fwd':
                    random.Random(o).shuffle(order)
                acts = how.get('acts') or ['val']
                for n, i in enumerate(order):
                    key, arg = items[i]
                    act = acts[n % len(acts)]
                    if act == 'omit':
                        continue
                    if act == 'raise':
                        raise fail(b, how.get('kind', 'exc'))
                    await sleep(how.get('step', 0))
                    if act == 'unknown':
                        key = key + '?'
                        act = 'val'
                    for _ in range(2 if act == 'twice' else 1):
                        if act in ('val', 'falsy', 'twice', 'unknown'):
                            x = Val(0, act == 'falsy')
                            w = 'val'
                        elif act == 'same':
                            x = self.same
                            w = 'val' if isinstance(x, Val) else 'exc'
                        elif act in VALUES:
                            x = VALUES[act]()
                            w = 'val'
                        else:
                            x = EXC[act]()
                            w = 'any' if act in ODD else 'exc'
                        u = self.tag(x)
                        self.log('y', b=b, k=self.key(key), u=u, how=w)
                        yield key, x
                await sleep(how.get('post', 0))
                if how.get('fin'):
                    raise fail(b, how.get('kind', 'exc'))
            finally:
                self.log('be', b=b)

        class It:
            def __init__(self, batch):
                self.g = gen(batch)

            def __aiter__(self):
                return self

            async def __anext__(self):
                return await self.g.__anext__()

        def plain(batch):
            i = self.nb
            how = beh[i % len(beh)] if beh else {}
            fn = how.get('fn')
            if fn == 'sync':            # fails before there is an iterator
                b, items, how = begin(batch)
                e = fail(b, how.get('kind', 'exc'), True)
                self.log('be', b=b)
                raise e
            if fn == 'none':            # not an asynchronous iterable
                b, items, how = begin(batch)
                self.log('be', b=b)
                return None
            if fn == 'iter':
                return It(batch)
            return gen(batch)
        return plain if any(b.get('fn') for b in beh) else gen

    def extra(self, name):
        """A call made by the batch function, not waiting for it."""
        if len(self.more) < 6:
            self.more.append(name)
            c = len(self.p['calls']) + len(self.more)
            self.spawned.append(self.loop.create_task(
                self.call(self.batcher, c, name, None)))

    async def call(self, batcher, c, name, key, hops=0):
        for _ in range(hops):
            await asyncio.sleep(0)
        self.log('arr', c=c)
        arg = Arg(c, name)
        try:
            if key is None:
                r = await batcher(arg)
            else:
                r = await batcher(arg, key=key)
        except asyncio.CancelledError as e:
            if c in self.wf and self.wf[c]():
                self.log('can', c=c)
            self.log('ret', c=c, how='canc', u=0)
            raise
        except BaseException as e:
            u = self.ids.get(id(e), 0)
            self.log('ret', c=c, how='exc' if u else 'err', u=u)
        else:
            u = self.ids.get(id(r), 0)
            self.log('ret', c=c, how='val', u=u)

    async def main(self, loop):
        p = self.p
        self.loop = loop
        self.wf = {}
        kw = dict(max_batch_size=p['size'], max_concurrent_batches=p['conc'],
                  batch_timeout=p['bto'] / 1000,
                  retention_timeout=p['ret'] / 1000)
        if p['form'] == 'direct':
            batcher = A.AsyncBackgroundBatcher(self.func(), **kw)
        elif p['form'] == 'deco':
            batcher = A.async_background_batcher(self.func(), **kw)
        else:
            batcher = A.async_background_batcher(**kw)(self.func())
        self.batcher = batcher
        self.more, self.spawned = [], []
        self.same = Val(0, True) if p.get('same') == 'val' else Exc()
        twin = self.twin(kw) if p.get('twin') else None
        acts = [(c[0], 0, i) for i, c in enumerate(p['calls'])]
        acts += [(m[0], 1, i) for i, m in enumerate(p.get('max') or ())]
        acts.sort()
        tasks = []

        def cancel(t, c):
            if not t.done():
                self.log('can', c=c)
                t.cancel()

        for at, kind, i in acts:
            d = at / 1000 - loop.clock
            if d > 1e-9:
                await asyncio.sleep(d)
            if kind == 1:
                n = p['max'][i][1]
                batcher.max_batch_size = n
                self.log('max', n=n)
                continue
            _, name, key, can = p['calls'][i]
            if twin is not None:
                self.spawned.append(loop.create_task(twin(name if key is None
                                                          else key)))
            coro = self.call(batcher, i + 1, name, key,
                             p['hops'][i % len(p['hops'])]
                             if p.get('hops') else 0)
            if can is None or can[0] == 'at':
                t = loop.create_task(coro)
                if can is not None:
                    loop.call_at(can[1] / 1000, cancel, t, i + 1)
            else:
                lim = at / 1000 + can[1] / 1000
                self.wf[i + 1] = lambda lim=lim: loop.clock >= lim - 1e-6
                t = loop.create_task(asyncio.wait_for(coro, can[1] / 1000))
            tasks.append(t)
        if tasks:
            await asyncio.wait(tasks)
        n = -1
        while n != len(self.spawned):
            n = len(self.spawned)
            if n:
                await asyncio.wait(self.spawned)
        await asyncio.sleep(5 * p.get('x', 1))

    def twin(self, kw):
        """Another one, of no interest."""
        async def other(batch):
            for k, a in batch:
                await asyncio.sleep(.003)
                yield k, Val(0, False)
        return A.AsyncBackgroundBatcher(other, **kw)

    def go(self):
        p = self.p
        try:
            vloop.run(self.main_closing)
        finally:
            self.open = False
        self.ev.append({'e': 'end', 't': self.end})
        return {'key': [self.key(c[1] if c[2] is None else c[2])
                        for c in p['calls']]
                + [self.key(n) for n in self.more],
                'size': p['size'], 'conc': p['conc'], 'bto': p['bto'],
                'ret': p['ret'], 'ev': self.ev,
                'canc': any(c[3] for c in p['calls'])}

    async def main_closing(self, loop):
        self.loop = loop
        self.end = 0
        try:
            await self.main(loop)
        finally:
            self.open = False
            self.end = vloop.ms(loop)


def run_job(job):
    for p in job['progs']:
        r = Run(p)
        yield {'trace': r.go(), 'sched': None}
