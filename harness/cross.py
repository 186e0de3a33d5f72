"""Executions of ensure_aw, run_aw_threadsafe and loop_in_thread under
detsim, as traces for CrossTrace.tla (C17)."""
import gc
import random

from lib import detsim


def setup(repo):
    global LD, aio
    LD = detsim.setup_repo(repo, lines=['asyncio'])
    aio = detsim.asyncio


class E1(Exception):
    pass


class E2(BaseException):
    pass


EXC = dict(e1=E1, base=E2, tmo=TimeoutError, val=ValueError, key=KeyError,
           rt=RuntimeError, gen=LookupError)
HORIZON = 60.0


class Val:
    def __init__(self, u):
        self.u = u

    def __bool__(self):
        return self.u % 2 == 0

    def __eq__(self, o):
        return True

    __hash__ = None


class Run:
    """prog: loops: [{lit: None | [at, stop_at | 'end'], close: None | ms}]
    callers: [{par, calls: [{at, fn, tgt, kind, delay, out}]}]
    tgt: number of a loop, or negative: the loop of caller -tgt"""

    def __init__(self, prog, strategy):
        self.prog = prog
        delays = [c['delay'] for cl in prog['callers'] for c in cl['calls']]
        self.horizon = HORIZON + sum(d / 1000 for d in delays if d > 9000)
        self.s = detsim.Sched(strategy, max_steps=60000,
                              max_clock=240.0 + self.horizon,
                              busy=4000 if len(delays) < 12 else 20000)
        self.calls = []
        self.left = 0
        self.vals = {}

    # -- awaitables ----------------------------------------------------------
    def outcome(self, c, out):
        """(how, u, raise or None)"""
        if out == 'val':
            v = Val(c)
            self.vals[c] = v
            return 'val', c, v, None
        if out == 'none':
            return 'none', 0, None, None
        if out == 'excval':         # an exception object as a plain value
            v = E1(c)
            self.vals[c] = v
            return 'val', c, v, None
        if out == 'cancel':
            return 'canc', 0, None, aio.CancelledError()
        e = EXC[out](c)
        return ('rt' if out == 'rt' else 'exc'), c, None, e

    async def work(self, c, d, out):
        s = self.s
        s.log('eval', c=c, lp=getattr(aio.get_running_loop(), 'label', 0))
        if d == -1:
            await aio.sleep(0)
        elif d < 0:                 # keeps its loop busy
            s.log('busy', c=c)
            s.sleep(-d / 1000)
            s.log('freed', c=c)
        elif d:
            await aio.sleep(d / 1000)
        how, u, v, e = self.outcome(c, out)
        s.log('evald', c=c, how=how, u=u)
        if e is not None:
            raise e
        return v

    def make(self, c, call, loop):
        kind = call['kind']
        if kind == 'coro':
            return lambda: self.work(c, call['delay'], call['out'])
        if kind == 'obj':
            run = self

            class Aw:
                def __await__(self):
                    return run.work(c, call['delay'],
                                    call['out']).__await__()
            return Aw
        if kind == 'task':
            t = loop.create_task(self.work(c, call['delay'], call['out']))
            t.add_done_callback(lambda t: t.cancelled() or t.exception())
            return lambda: t
        f = loop.create_future()

        def finish():
            s = self.s
            s.log('eval', c=c, lp=loop.label)
            how, u, v, e = self.outcome(c, call['out'])
            s.log('evald', c=c, how=how, u=u)
            if how == 'canc':
                f.cancel()
            elif e is not None:
                f.set_exception(e)
                f.exception()
            else:
                f.set_result(v)
        if call['delay'] > 0:
            loop.call_later(call['delay'] / 1000, finish)
        else:
            loop.call_soon(finish)
        return lambda: f

    # -- callers ---------------------------------------------------------------
    async def call(self, c, call, loop, make):
        s = self.s
        d = call['at'] / 1000 - s.clock
        if d > 0:
            await aio.sleep(d)
        aw = make()
        s.log('call', c=c)
        how, u = 'val', 0
        try:
            f = (self.A.ensure_aw if call['fn'] == 'ensure'
                 else self.A.run_aw_threadsafe)
            r = await f(aw, loop)
            if r is None:
                how = 'none'
            else:
                for k, v in self.vals.items():
                    if v is r:
                        u = k
        except (aio.CancelledError, detsim.SimAbort) as e:
            if isinstance(e, detsim.SimAbort):
                raise
            how = 'canc'
        except BaseException as e:
            if isinstance(e, GeneratorExit):
                raise
            how = 'exc'
            if type(e) is RuntimeError:
                how = 'rt'
            ok = type(e) is EXC.get(call['out']) and e.args == (c,)
            u = c if ok else (0 if how == 'rt' and self.closed(loop)
                              else -1)
        finally:
            # close coroutines which never started
            if hasattr(aw, 'close'):
                try:
                    aw.close()
                except BaseException:
                    pass
        s.log('ret', c=c, how=how, u=u)
        self.left -= 1

    def closed(self, loop):
        return loop.is_closed()

    def caller(self, n, cl, makes):
        def run():
            s = self.s
            loop = self.own[n]
            aio.set_event_loop(loop)

            async def main():
                if cl['par']:
                    await aio.gather(*[
                        self.call(c, call, tgt, mk)
                        for c, call, tgt, mk in makes])
                else:
                    for c, call, tgt, mk in makes:
                        await self.call(c, call, tgt, mk)
                start = s.clock
                end = start + self.horizon
                while self.left and s.clock < end:
                    await aio.sleep(max(0.05, (s.clock - start) / 50))
            loop.run_until_complete(main())
        return run

    def manager(self, lp, loop, lit):
        def run():
            s = self.s
            if lit[0]:
                s.sleep(lit[0] / 1000)
            s.log('lit', lp=lp)
            try:
                stop = self.A.loop_in_thread(loop)
            except Exception:
                s.log('litx', lp=lp)
                return
            ok = True
            s.log('litd', lp=lp)
            if lit[1] == 'end':
                s.block(lambda: self.left == 0, s.clock + self.horizon)
            else:
                d = lit[1] / 1000 - s.clock
                if d > 0:
                    s.sleep(d)
            s.log('stop', lp=lp)
            try:
                stop()
            except Exception:
                ok = False
            s.log('stopd', lp=lp, ok=ok)
        return run

    def go(self):
        s, prog = self.s, self.prog

        def main():
            self.A = LD.fresh('asyncio')
            ths = []
            self.loops = []
            for i, spec in enumerate(prog['loops']):
                lp = detsim.SimLoop()
                lp.label = i + 1
                lp.set_exception_handler(lambda *a: None)
                self.loops.append(lp)
            self.own = []
            for i, cl in enumerate(prog['callers']):
                lp = detsim.SimLoop()
                lp.label = 100 + i + 1
                lp.set_exception_handler(lambda *a: None)
                self.own.append(lp)
            todo = []
            for n, cl in enumerate(prog['callers']):
                makes = []
                for call in cl['calls']:
                    t = call['tgt']
                    loop = self.loops[t - 1] if t > 0 else self.own[-t - 1]
                    self.calls.append({'tgt': loop.label,
                                       'must': call.get('must', True)})
                    c = len(self.calls)
                    makes.append((c, call, loop, self.make(c, call, loop)))
                    self.left += 1
                todo.append((n, cl, makes))
            for spec, lp in zip(prog['loops'], self.loops):
                if spec.get('closed'):
                    lp.close()
            for i, spec in enumerate(prog['loops']):
                if spec.get('lit'):
                    ths.append(s.spawn(self.manager(
                        i + 1, self.loops[i], spec['lit']), 'm'))
            if prog.get('first'):     # every loop_in_thread has returned
                s.block(lambda: sum(e['e'] in ('litd', 'litx')
                                    for e in s.events) == len(ths))
            for n, cl, makes in todo:
                ths.append(s.spawn(self.caller(n, cl, makes), 'c'))
            end = s.clock + self.horizon + 40
            s.block(lambda: all(t.done for t in ths), end)
            self.ths = ths
        th = s.run(main, real_timeout=60)
        for t in [th, *getattr(self, 'ths', ())]:
            if t.exc is not None and not isinstance(t.exc, detsim.SimAbort):
                raise t.exc
        ev = s.events
        ev.append({'e': 'end', 'how': s.end, 't': int(round(s.clock * 1000))})
        return {'calls': self.calls, 'ev': ev}


_n = 0


def once(prog, strategy):
    global _n
    _n += 1
    if _n % 50 == 0:
        gc.collect()
    r = Run(prog, strategy)
    return r.go(), r.s


def run_job(job):
    for prog in job['progs']:
        tr, s = once(prog, detsim.Strategy())
        yield {'trace': tr, 'sched': {}}
        multi, steps = s.strategy.multi, s.step
        rng = random.Random(job['seed'])
        pts = [(st, r) for st, n in multi for r in range(min(n, 3))]
        if len(pts) > job.get('single', 0):
            pts = rng.sample(pts, job.get('single', 0))
        for st, r in pts:
            tr, _ = once(prog, detsim.Strategy({st: r}))
            yield {'trace': tr, 'sched': {'preempt': {st: r}}}
        for k in range(job.get('double', 0)):
            if len(multi) < 2:
                break
            p = {rng.choice(multi)[0]: rng.randrange(3) for _ in range(2)}
            tr, _ = once(prog, detsim.Strategy(p))
            yield {'trace': tr, 'sched': {'preempt': p}}
        for k in range(job.get('random', 0)):
            kw = rng.choice([dict(p=0.02), dict(p=0.1), dict(p=0.3),
                             dict(pct=2, pct_len=max(10, steps)),
                             dict(pct=4, pct_len=max(10, steps))])
            kw.update(seed=rng.randrange(10 ** 9), order='rand')
            tr, _ = once(prog, detsim.Strategy(**kw))
            yield {'trace': tr, 'sched': kw}
