"""C20: replay of Gather.tla cases."""
import sys
import asyncio

from lib import vloop

A = None


def setup(repo):
    global A
    import logging
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, repo)
    import aiuti.asyncio as m
    A = m


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class B(BaseException):
    pass


class Eq(E1):
    """Exceptions comparing equal must not be merged."""
    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1


class Falsy(E3):
    def __bool__(self):
        return False

    __len__ = lambda self: 0    # noqa


class Unhashable(E2):
    __hash__ = None


FILTER = {'BaseException': BaseException, 'Exception': Exception, 'E1': E1,
          'E2': E2, 'E3': E3, 'B': B, 'CancelledError': asyncio.CancelledError}


class Aw:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


def run_case(case, flt, var, first):
    plan, order, exp = case['plan'], case['order'], case['exp'][flt]
    n = len(plan)
    done = []
    excs = {}
    shared = {}

    async def one(i, o, when):
        if when:
            await asyncio.sleep(when)
        else:
            if var % 2:
                await asyncio.sleep(0)
        done.append(i)
        if o == 'ok':
            return [None, 'v', 0][i % 3]
        if o == 'cancel':
            e = asyncio.CancelledError()
        elif o in shared and var % 5 < 3 and i % 3:
            e = shared[o]           # the same one again
        elif o == 'E1' and var % 5 == 4:
            e = Eq()
        elif o == 'E3' and var % 5 == 3:
            e = Falsy()
        elif o == 'E3' and var % 5 == 0:
            e = type('TE', (E3, asyncio.TimeoutError), {})(i)
        elif o == 'E3' and var % 5 == 2:
            e = type('SA', (E3, StopAsyncIteration), {})(i)
        elif o == 'E2' and var % 5 in (0, 3):
            e = Unhashable()
        else:
            e = {'E1': E1, 'E2': E2, 'E3': E3, 'B': B, 'ret': E1}[o](i)
        excs[i] = e
        if o in ('E1', 'E2', 'E3', 'B'):
            shared[o] = e
        if o == 'ret':
            return e
        raise e

    async def main(loop):
        aws = []
        for i in range(n):
            when = (order.index(i + 1)) * (1.0 if var % 3 else 0.25)
            if var % 4 == 3 and when:
                when = 1.0                    # all at the same instant
            if var % 5 == 4:
                when *= 3600                  # it takes hours
            c = one(i + 1, plan[i], when)
            form = (var + i) % 4
            if form == 0:
                aws.append(c)
            elif form == 1:
                aws.append(loop.create_task(c))
            elif form == 2:
                aws.append(Aw(c))
            else:
                f = loop.create_future()

                async def fill(c=c, f=f):
                    try:
                        f.set_result(await c)
                    except asyncio.CancelledError:
                        f.cancel()
                    except BaseException as e:
                        f.set_exception(e)
                loop.create_task(fill())
                aws.append(f)
        if var % 6 == 5:
            await asyncio.sleep(10 if var % 5 < 4 else 36000)           # tasks/futures already done
        src = (a for a in aws) if var % 2 else (
            tuple(aws) if var % 3 else aws)
        kw = {} if flt == 'BaseException' and var % 2 else {
            'only': FILTER[flt]}
        if first:
            try:
                r = await A.raise_first_exc(src, **kw)
                got = ('ret', r)
            except BaseException as e:
                if isinstance(e, (vloop.Idle, vloop.StepLimit)):
                    raise
                got = ('exc', e)
            alld = sorted(done) == list(range(1, n + 1))
            return got, alld
        ys = []
        alld = None
        try:
            async for e in A.gather_excs(src, **kw):
                if alld is None:
                    alld = sorted(done) == list(range(1, n + 1))
                ys.append(e)
        except BaseException as e:
            if isinstance(e, (vloop.Idle, vloop.StepLimit)):
                raise
            return ('raised', e), alld
        if alld is None:
            alld = sorted(done) == list(range(1, n + 1))
        return ('ys', ys), alld

    st, r = vloop.run(main)
    if st != 'ok':
        return 'hang', st
    (k, v), alld = r

    def match(e, i):
        if plan[i - 1] == 'cancel':
            return isinstance(e, asyncio.CancelledError)
        return e is excs.get(i)
    if not alld:
        return 'completion', done
    if first:
        if not exp:
            if k != 'ret' or v is not None:
                return 'first', repr((k, v))
        elif k != 'exc' or not match(v, exp[0]):
            return 'first', repr((k, v))
        return None
    if k != 'ys':
        return 'raised', repr(v)
    if len(v) != len(exp) or not all(map(match, v, exp)):
        return 'yields', repr(v)
    return None


def run_job(job):
    n = bad = 0
    for c in job['cases']:
        for k, flt in enumerate(c['exp']):
            for first in (False, True):
                for var in job['vars']:
                    n += 1
                    r = run_case(c, flt, var, first)
                    if r:
                        bad += 1
                        if bad <= 5:
                            yield {'trace': {'case': c, 'flt': flt,
                                             'var': var, 'first': first,
                                             'got': repr(r)},
                                   'clause': 'C20.' + r[0], 'runs': 0}
    yield {'skip': True, 'runs': n}
