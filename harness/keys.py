"""C14: replay of Keys.tla histories on threadsafe_async_cache."""
import sys
import asyncio
import inspect
from collections.abc import MutableMapping
from collections import OrderedDict
from decimal import Decimal
from fractions import Fraction

from lib import vloop

A = None


def setup(repo):
    global A
    import logging
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, repo)
    import aiuti.asyncio as m
    A = m


class Obj:
    """Equal by value, same repr for all."""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Obj) and o.v == self.v

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'Obj'


# class -> members (pairwise equal); different classes are never equal
VALUES = [
    {1: [1, True, 1.0, Decimal(1), Fraction(1)], 2: ['1', '1']},
    {1: [-1, -1.0], 2: [-2, -2.0]},
    {1: [('a', 5), ('a', 5.0)], 2: [5, 5.0]},
    {1: [7, 7.0], 2: [(7, 7), (7.0, 7)]},
    {1: [0, False, 0.0], 2: [None]},
    {1: [Obj(1), Obj(1)], 2: [Obj(2), Obj(2)]},
    {1: [''], 2: [()]},
    {1: [frozenset('ab'), frozenset('ba')], 2: ['ab']},
    {1: ['a'], 2: [('a',)]},
    {1: [(), ()], 2: [frozenset()]},
    {1: [2 ** 70, float(2 ** 70)], 2: [2 ** 70 + 1]},
    {1: [int, int], 2: ['int']},
]


def lookalikes(n):
    """Positional arguments looking like what a flattened key would hold for
    the keyword n.  Class 2 is the one made of class 1."""
    five = [5, 5.0]
    return [
        {1: [()], 2: [frozenset({(n, ())})]},           # (args, frozenset)
        {1: [5, 5.0], 2: [frozenset({(n, 5)})]},        # *args, frozenset
        {1: [()], 2: [((n, ()),)]},                     # (args, items)
        {1: five, 2: [((n, 5),)]},                      # *args, items
        {1: five, 2: [(n, 5), (n, 5.0)]},               # *args, *items
        {1: [n], 2: [(n, n)]},                          # *args, name, value
        {1: [()], 2: [(((), frozenset({(n, ())})))]},   # a whole key
        {1: [5], 2: [((5,), frozenset())]},
        {1: [5], 2: [((), frozenset({(n, 5)}))]},
        {1: [(5,)], 2: [((5,),)]},
        {1: [f"{n}=5"], 2: [5, 5.0]},
        {1: [None], 2: [(n, None)]},
    ]


def values(var, names):
    i = var % NVALUES
    if i < len(VALUES):
        return VALUES[i]
    return lookalikes(names['a'])[i - len(VALUES)]


NVALUES = len(VALUES) + len(lookalikes('a'))
NAMES = [dict(zip('abc', n)) for n in (
    ('a', 'b', 'c'), ('args', 'kwargs', 'kw'), ('key', 'self', 'event'),
    ('func', 'cache', 'loop'), ('b', 'a', 'cls'))]


class Mapping(MutableMapping):
    """Minimal mapping, bounded, remembers what was stored when."""

    def __init__(self, cap=0):
        self.d = OrderedDict()
        self.cap = cap

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d.pop(k, None)
        self.d[k] = v
        if self.cap and len(self.d) > self.cap:
            self.d.popitem(last=False)

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class Failure(Exception):
    pass


def run_case(case, var):
    names = NAMES[(var // 3) % len(NAMES)]
    vals = values(var, names)
    kind = var % 3                 # what the function returns
    cap, given = case['cap'], case['given']
    if not given:
        mapping = None
    elif cap or var % 2:
        mapping = Mapping(cap)
    else:
        mapping = {}
    count = [0]
    failing = [False]
    objs = {}
    seen_args = []

    async def func(*args, **kwargs):
        count[0] += 1
        n = count[0]
        seen_args.append((args, kwargs))
        if var % 4 == 1:
            await asyncio.sleep(0)
        elif var % 4 == 3:
            await asyncio.sleep(1)
        if failing[0]:
            raise Failure(n)
        v = ([n], None, Failure(n))[kind] if n % 2 else \
            (object(), False, 0)[kind]
        objs[n] = v
        return v

    if var % 4 > 1:                # the function has named parameters
        params = sorted(names) if var % 8 > 3 else list(names)
        func.__signature__ = inspect.Signature([
            inspect.Parameter(p, inspect.Parameter.POSITIONAL_OR_KEYWORD,
                              default=sorted(vals.items())[i % len(vals)][1][0])
            for i, p in enumerate(params) if p.isidentifier()])

    def wrap():
        if mapping is None:
            if var % 2:
                return A.threadsafe_async_cache()(func)
            return A.threadsafe_async_cache(func)
        if var % 2:
            return A.threadsafe_async_cache(cache=mapping)(func)
        return A.threadsafe_async_cache(func, cache=mapping)
    w = [wrap()]
    tick = [0]
    keyof = {}

    def realise(c):
        tick[0] += 1
        t = tick[0]

        def v(cls, i):
            m = vals[cls]
            return m[(t * 3 + i + var) % len(m)]
        args = tuple(v(x, i) for i, x in enumerate(c['args']))
        kw = sorted(c['kw'])
        if t % 2:
            kw.reverse()
        kwargs = {names[k]: v(x, 10 + i) for i, (k, x) in enumerate(kw)}
        return args, kwargs

    async def one(c, dup):
        async def go():
            a, k = realise(c)
            try:
                return 'ok', await w[0](*a, **k)
            except Failure as e:
                return 'fail', e
            except Exception as e:
                return 'exc', e
        if dup:
            return await asyncio.gather(go(), go(), go())
        return [await go()]

    async def steps(loop, hist):
        for st in hist:
            op = st['op']
            if op in ('call', 'fail'):
                failing[0] = op == 'fail'
                before = set(mapping) if mapping is not None else None
                rs = await one(st['c'], op == 'call' and var % 5 == 2)
                failing[0] = False
                if count[0] != st['n']:
                    return 'invocations', (count[0], st)
                for k, v in rs:
                    if st['ret'] == 0:
                        if k != 'fail' or v.args != (st['n'],):
                            return 'outcome', (k, repr(v), st)
                    elif k != 'ok':
                        return 'outcome', (k, repr(v), st)
                    elif v is not objs[st['ret']]:
                        return 'value', (repr(v), st)
                if before is not None:
                    new = set(mapping) - before
                    if len(new) == 1:
                        keyof[st['n']] = new.pop()
            elif op == 'evict':
                try:
                    del mapping[keyof[st['ret']]]
                except KeyError:
                    return 'store', ('not in the mapping', st)
            elif op == 'clear':
                mapping.clear()
            elif op == 'rewrap':
                w[0] = wrap()
        return None

    if var % 7 == 3:               # every step on another loop
        for st in case['hist']:
            s, r = vloop.run(lambda lp: steps(lp, [st]))
            if s != 'ok':
                return 'hang', s
            if r:
                return r
        return None
    s, r = vloop.run(lambda lp: steps(lp, case['hist']))
    return ('hang', s) if s != 'ok' else r


def run_job(job):
    n = bad = 0
    for i, c in enumerate(job['cases']):
        vs = job['vars']
        if job.get('rot'):
            k = job['rot']
            vs = [vs[(i * k + j) % len(vs)] for j in range(k)]
        for var in vs:
            n += 1
            r = run_case(c, var)
            if r:
                bad += 1
                if bad <= 5:
                    yield {'trace': {'case': c, 'var': var, 'got': repr(r)},
                           'clause': 'C14.' + r[0], 'runs': 0}
    yield {'skip': True, 'runs': n}
