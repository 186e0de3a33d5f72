"""The decorators with options and applied directly, and decorated batchers
on several loops (C15), under detsim.

mode 'batcher': one probe in every form; per form a trace for BatcherTrace,
and all of them as one for Forms-equality (Pair.tla).
mode 'buffer':  likewise for BufferTrace.
mode 'cache':   a history with the outcome the spec prescribes.
mode 'loops':   programs for several loops, one after another or at once."""
import functools
import gc
import inspect
import random

from lib import detsim
from harness import buffer


def setup(repo):
    global LD, A, aio
    LD = detsim.setup_repo(repo, lines=['asyncio'])
    A = LD.fresh('asyncio')
    aio = detsim.asyncio
    buffer.LD, buffer.A, buffer.aio = LD, A, aio


def default(f, name, otherwise):
    try:
        d = inspect.signature(f).parameters[name].default
    except (KeyError, ValueError, TypeError):
        return otherwise
    return otherwise if d is inspect.Parameter.empty else d


class Arg:
    def __init__(self, drive, c, name, dur):
        self.drive = drive
        self.c = c
        self.name = name
        self.dur = dur

    def __str__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Arg)

    def __hash__(self):
        return 1


class Val:
    def __init__(self, u):
        self.u = u


class Drive:
    """Calls of one loop: [[at, name, dur, explicit key or None]...]"""

    def __init__(self, s, eff):
        self.s = s
        self.eff = eff
        self.keys = []       # of the calls, by number
        self.ev = []
        self.kid = {}
        self.nb = 0
        self.open = True

    def log(self, e, **kw):
        if self.open:
            kw.update(e=e, t=int(round(self.s.clock * 1000)))
            self.ev.append(kw)

    def key(self, name):
        return self.kid.setdefault(name, len(self.kid) + 1)

    async def batch(self, batch):
        self.nb += 1
        b = self.nb
        items = list(batch)
        self.log('bs', b=b, xs=[
            {'c': a.c if a.drive is self else 0, 'k': self.key(k)}
            for k, a in items])
        try:
            d = max((a.dur for k, a in items), default=0)
            if d:
                await aio.sleep(d / 1000)
            for k, a in items:
                self.log('y', b=b, k=self.key(k), u=a.c, how='val')
                yield k, Val(a.c)
        finally:
            self.log('be', b=b)

    async def call(self, f, c, name, dur, key):
        self.log('arr', c=c)
        arg = Arg(self, c, name, dur)
        try:
            r = await (f(arg) if key is None else f(arg, key=key))
        except aio.CancelledError:
            self.log('ret', c=c, how='canc', u=0)
            raise
        except Exception:
            self.log('ret', c=c, how='err', u=0)
        else:
            self.log('ret', c=c, how='val', u=getattr(r, 'u', 0))

    async def drive(self, f, calls, start=0):
        s = self.s
        await aio.sleep(0.001)
        tasks = []
        for call in sorted(calls, key=lambda c: c[0]):
            at, name, dur, key = (list(call) + [None])[:4]
            d = (start + at) / 1000 - s.clock
            if d > 1e-9:
                await aio.sleep(d)
            self.keys.append(self.key(key or name))
            tasks.append(aio.ensure_future(self.call(
                f, len(self.keys), name, dur, key)))
        if tasks:
            await aio.wait(tasks)
        await aio.sleep(.2)

    def close(self):
        if self.open:
            self.log('end')
            self.open = False

    def trace(self):
        self.close()
        return {'key': self.keys,
                'size': self.eff['size'], 'conc': self.eff['conc'],
                'bto': self.eff['bto'], 'ret': self.eff['ret'],
                'ev': self.ev, 'canc': False}


def options(cfg, eff):
    names = dict(size='max_batch_size', conc='max_concurrent_batches',
                 bto='batch_timeout', ret='retention_timeout')
    kw = {}
    for k, n in names.items():
        if cfg[k]:
            kw[n] = eff[k] / 1000 if k in ('bto', 'ret') else eff[k]
        else:
            d = default(A.async_background_batcher, n, None)
            if d is None:
                return None
            eff[k] = int(round(d * (1000 if k in ('bto', 'ret') else 1)))
    return kw


def close(loop):
    todo = aio.all_tasks(loop)
    for t in todo:
        t.cancel()
    if todo:
        loop.run_until_complete(aio.gather(*todo, return_exceptions=True))
    loop.run_until_complete(loop.shutdown_asyncgens())
    loop.close()


def new_loop():
    loop = detsim.SimLoop()
    loop.set_exception_handler(lambda *a: None)
    return loop


def simulate(body, strategy=None, lines=False):
    detsim.LINES_ON = lines
    s = detsim.Sched(strategy or detsim.Strategy(), max_steps=200000,
                     max_clock=4000.0)
    th = s.run(lambda: body(s), real_timeout=60)
    detsim.LINES_ON = True
    if th.exc is not None and not isinstance(th.exc, detsim.SimAbort):
        raise th.exc
    return s


class Obj:
    """A callable which is no function."""

    def __init__(self, func):
        self.__func = func

    def __call__(self, *args):
        return self.__func(*args)

    def method(self, *args):
        return self.__func(*args)


class FalsyObj(Obj):
    __slots__ = ()

    def __len__(self):
        return 0


class AttrObj(Obj):
    """Has attributes of its own, named like options and the like."""

    def __init__(self, func):
        super().__init__(func)
        for a in ('func timeout loop q event cache max_batch_size'
                  ' max_concurrent_batches batch_timeout retention_timeout'
                  ).split():
            setattr(self, a, 77)


KINDS = ['plain', 'plain', 'partial', 'object', 'falsy', 'method', 'attrs']


def callable_as(kind, func):
    """What is decorated need not be a plain function."""
    if kind == 'plain':
        return func
    if kind == 'partial':
        return functools.partial(func)
    if kind == 'method':
        return Obj(func).method
    return {'object': Obj, 'falsy': FalsyObj, 'attrs': AttrObj}[kind](func)


def kind_of(x):
    import json
    import zlib
    return KINDS[zlib.crc32(json.dumps(x, sort_keys=True).encode())
                 % len(KINDS)]


def dispatcher(drives, bad):
    """The decorated function: what runs on a loop is for its program."""
    def func(batch):
        d = drives.get(aio.get_running_loop())
        if d is None:
            bad.append('loop')
            return None
        return d.batch(batch)
    return func


def make_batcher(form, func, kw, other=None):
    deco = A.async_background_batcher
    if form == 'direct':
        return deco(func, **kw)
    if form == 'class':
        return A.AsyncBackgroundBatcher(func, **kw)
    if form == 'opts':
        return deco(**kw)(func)
    d = deco(**kw)               # used for two functions
    other.append(d(other[0]))
    f = d(func)
    return f


def run_batcher(form, cfg, eff, calls):
    kind = kind_of(calls)
    eff = dict(eff)
    kw = options(cfg, eff)
    if kw is None:
        return None
    box = []

    def body(s):
        loop = new_loop()
        aio.set_event_loop(loop)
        drive = Drive(s, eff)
        box.append(drive)
        func = callable_as(kind, dispatcher({loop: drive}, []))

        async def idle(batch):
            for k, a in batch:
                await aio.sleep(.003)
                yield k, a

        async def main():
            other = [idle]
            f = make_batcher(form, func, kw, other)
            if len(other) > 1:
                for _ in range(3):
                    aio.ensure_future(other[1]('x'))
                for c in calls:
                    aio.get_running_loop().call_later(
                        c[0] / 1000 - .001, lambda:
                        aio.ensure_future(other[1]('x')))
            await drive.drive(f, calls)
        loop.run_until_complete(main())
        drive.close()
        close(loop)
    simulate(body)
    return box[0].trace()


def by_instant(ev):
    out = {}
    for e in ev:
        e = dict(e)
        t = e.pop('t')
        e.pop('b', None)     # their order is of no importance
        out.setdefault(t, []).append(e)
    import json
    return [[t, sorted(json.dumps(e, sort_keys=True) for e in es)]
            for t, es in sorted(out.items())]


def pair(forms, traces):
    return {'forms': forms, 'obs': [by_instant(t['ev']) for t in traces]}


def batcher_case(case):
    forms = ['direct', 'opts', 'reuse']
    if all(case['cfg'].values()):
        forms.append('class')
    trs = [run_batcher(f, case['cfg'], case['eff'], case['calls'])
           for f in forms]
    if None in trs:
        return
    for t in trs:
        yield 'batcher', t
    yield 'pair', pair(forms, trs)


def buffer_case(p):
    forms = ['direct', 'deco', 'reuse']
    dflt = default(A.buffer_until_timeout, 'timeout', None)
    omitted = p['tmo'] is None
    if omitted:
        if dflt is None:
            return
        p = dict(p, tmo=int(round(dflt * 1000)))
        for a in p['own']:
            a[0] = int(a[0] * dflt * 10)
    trs = []
    for form in forms:
        detsim.LINES_ON = False
        r = buffer.Run(p, detsim.Strategy())
        kw = {} if omitted else {'timeout': p['tmo'] / 1000}

        def make(r=r, form=form):
            func = callable_as(kind_of(p['own']), r.func)
            if form == 'direct':
                return A.buffer_until_timeout(func, **kw)
            d = A.buffer_until_timeout(**kw)
            if form == 'reuse':
                async def other(args):
                    await aio.sleep(.005)
                b = d(other)
                for i in range(4):
                    aio.get_event_loop().call_later(
                        p['tmo'] * i * .3 / 1000, b, -1)
            return d(func)
        r.make = make
        trs.append(r.go())
        detsim.LINES_ON = True
    for t in trs:
        yield 'buffer', t
    yield 'pair', pair(forms, trs)


# -- the cache option --------------------------------------------------------
class Store(dict):
    """Knows the keys in the order they were stored."""
    cap = None

    def __init__(self, *a):
        super().__init__(*a)
        self.last = None

    def __setitem__(self, k, v):
        if k not in self and self.cap and len(self) >= self.cap:
            del self[next(iter(self))]
        super().__setitem__(k, v)
        self.last = k


class Falsy(Store):
    def __bool__(self):
        return False


class Fifo1(Store):
    cap = 1


class Fifo2(Store):
    cap = 2


def store(kind):
    if kind == 'none':
        return None
    return {'dict': Store, 'falsy': Falsy, 'fifo1': Fifo1, 'fifo2': Fifo2,
            'full': lambda: Store({'unrelated': 1, ('x',): 2})}[kind]()


def cache_case(case, form):
    """None or what is wrong"""
    st = store(case['store'])
    base = len(st) if st is not None else 0
    kw = {} if st is None else {'cache': st}
    log = []

    def body(s):
        loop = new_loop()
        aio.set_event_loop(loop)
        ran = []

        async def func(x):
            ran.append(x)
            await aio.sleep(.01)
            return (x,)

        async def func2(x):
            ran.append(-x)
            return (-x,)
        func = callable_as(kind_of(case['hist']), func)
        deco = A.threadsafe_async_cache
        if form == 'direct':
            f, g = deco(func, **kw), deco(func2, **kw)
        elif form == 'opts':
            f, g = deco(**kw)(func), deco(**kw)(func2)
        else:
            d = deco(**kw)
            f, g = d(func), d(func2)
        keys = {}
        for h in case['hist']:
            x = h['x']
            del ran[:]
            if h['op'] == 'call':
                if st is not None:
                    st.last = None
                r = loop.run_until_complete(f(x))
                if r != (x,) or ran != ([x] if h['runs'] else []):
                    log.append(['call', x, ran[:], list(r)])
                if st is not None and st.last is not None:
                    keys[x] = st.last
            elif h['op'] == 'other':
                r = loop.run_until_complete(g(x))
                if r != (-x,) or ran != ([-x] if h['runs'] else []):
                    log.append(['other', x, ran[:], list(r)])
            elif h['op'] == 'del':
                if keys.get(x) not in st:
                    log.append(['not stored', x])
                    break
                del st[keys[x]]
            else:
                st.clear()
        if st is not None and not log:
            n = len(st) - base
            if any(h['op'] == 'clear' for h in case['hist']):
                n = len(st)
            if (n > 0) != (case['kept'] > 0):
                log.append(['kept', n, case['kept']])
        close(loop)
    s = simulate(body)
    if s.end != 'done' and not log:
        log.append(['end', s.end])
    return log


# -- several loops -------------------------------------------------------------
def run_loops(p, strategy, lines):
    """p: cfg, eff, together: bool, form, progs: [[loop, calls, drop]...];
    not together: one after another; loops may come up again; drop: close
    and forget the loop afterwards.  together: all at once, in threads."""
    eff = dict(p['eff'])
    kw = options(p['cfg'], eff)
    if kw is None:
        return None, None
    drives = {}
    out = []
    bad = []

    def body(s):
        f = make_batcher(p['form'], callable_as(
            kind_of(p['progs']), dispatcher(drives, bad)), kw)
        loops = {}

        def run(lp, calls, drop, start):
            if lp not in loops:
                loops[lp] = new_loop()
                drives[loops[lp]] = Drive(s, eff)
                out.append(drives[loops[lp]])
            loop = loops[lp]
            aio.set_event_loop(loop)
            d = drives[loop]
            loop.run_until_complete(d.drive(f, calls, start))
            if drop:
                d.close()
                del drives[loop]
                close(loop)
                del loop, loops[lp]
                aio.set_event_loop(None)
        if p['together']:
            ths = [s.spawn(lambda lp=lp, calls=calls: run(lp, calls, True,
                                                          0), 'l')
                   for lp, calls, _ in p['progs']]
            s.block(lambda: all(t.done for t in ths))
            for t in ths:
                if t.exc is not None and not isinstance(t.exc,
                                                        detsim.SimAbort):
                    raise t.exc
        else:
            for lp, calls, drop in p['progs']:
                run(lp, calls, drop, int(round(s.clock * 1000)) + 2)
                if drop:
                    gc.collect()
            for lp in list(loops):
                drives[loops[lp]].close()
                close(loops[lp])
    s = simulate(body, strategy, lines)
    trs = []
    for d in out:
        t = d.trace()
        if bad:
            t['ev'].insert(0, {'e': 'bs', 'b': 99, 't': 0,
                               'xs': [{'c': 0, 'k': 0}]})
        trs.append(t)
    return trs, s


_n = 0


def run_job(job):
    global _n
    mode = job['mode']
    if mode == 'cache':
        for case in job['cases']:
            for form in ('direct', 'opts', 'reuse'):
                if form == 'reuse' and case['store'] != 'none':
                    continue
                bad = cache_case(case, form)
                if bad:
                    yield {'clause': 'cache', 'trace': {
                        'case': case, 'form': form, 'bad': bad}}
                else:
                    yield {'skip': True}
        return
    if mode in ('batcher', 'buffer'):
        for case in job['cases']:
            for kind, t in (batcher_case if mode == 'batcher'
                            else buffer_case)(case):
                yield {'kind': kind, 'trace': t, 'sched': None}
        return
    for p in job['cases']:
        trs, s = run_loops(p, detsim.Strategy(), p['together'])
        if trs is None:
            continue
        for t in trs:
            yield {'kind': 'loops', 'trace': t, 'sched': {}}
        if not p['together']:
            continue
        multi, steps = s.strategy.multi, s.step
        rng = random.Random(job['seed'])
        ks = []
        pts = [(st, r) for st, n in multi for r in range(min(n, 2))]
        if len(pts) > job['single']:
            pts = rng.sample(pts, job['single'])
        ks += [dict(preempt={st: r}) for st, r in pts]
        for k in range(job['random']):
            kw = rng.choice([dict(p=0.02), dict(p=0.1), dict(p=0.3),
                             dict(pct=2, pct_len=max(10, steps))])
            ks.append(dict(kw, seed=rng.randrange(10 ** 9), order='rand'))
        for kw in ks:
            st = (detsim.Strategy(kw['preempt']) if 'preempt' in kw
                  else detsim.Strategy(**kw))
            trs, _ = run_loops(p, st, True)
            for t in trs:
                yield {'kind': 'loops', 'trace': t, 'sched': kw}
            _n += 1
            if _n % 50 == 0:
                gc.collect()
