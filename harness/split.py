"""C18: replay of Split.tla histories on aiuti.itertools."""
import sys

M = None


def setup(repo):
    global M
    sys.path.insert(0, repo)
    import aiuti.itertools as m
    M = m


class Src:
    """Logged source; a one-shot iterator or a re-iterable."""

    def __init__(self, els, once):
        self.els = els
        self.once = once
        self.pulls = 0
        self.iters = 0

    def __iter__(self):
        if self.once:
            return self
        self.iters += 1
        return self._gen()

    def _gen(self):
        for x in self.els:
            self.pulls += 1
            yield x

    def __next__(self):
        if not self.once:
            raise TypeError
        if self.pulls >= len(self.els):
            raise StopIteration
        x = self.els[self.pulls]
        self.pulls += 1
        return x


class OnceIter(Src):
    pass


class Reiterable(Src):
    __next__ = None


TRUE = [True, 1, 'x', [0], object()]
FALSE = [False, 0, '', [], None]


class Same:
    """Equal to everything."""
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 0


class Odd:
    """Not to be compared, hashed or judged."""
    def __eq__(self, o):
        raise ArithmeticError

    __ne__ = __lt__ = __bool__ = __len__ = __eq__
    __hash__ = None


class Fn:
    """A callable which could be taken for an iterable."""
    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0


def elements(n, flavour):
    if flavour == 4:
        return [Same() for _ in range(n)]
    if flavour == 5:
        return [Odd() for _ in range(n)]
    if flavour == 0:
        return ['e%d' % i for i in range(n)]
    if flavour == 1:                       # falsy and equal elements
        return [None, 0, None, '', 0, None, '', 0][:n]
    if flavour == 2:                       # unhashable, equal
        return [[] for _ in range(n)]
    return [bool(i % 2) for i in range(n)]


def source(els, form):
    """What is handed over, and what counts its use (if anything)"""
    if form == 1:
        s = Reiterable(els, False)
        return s, s
    if form == 2:
        return els, None
    if form == 3:
        return tuple(els), None
    s = OnceIter(els, True)
    if form == 4:                          # a generator
        return (x for x in s), s
    if form == 5:
        return range(len(els)), None
    return s, s


FORMS = (0, 1, 2, 0, 1, 3, 4, 5)


def replay(case, var):
    n, cond = case['n'], case['cond']
    form = FORMS[(var // 6) % 8]
    els = list(range(n)) if form == 5 else elements(n, var % 6)
    arg, src = source(els, form)
    src = src or Reiterable((), False)
    vals = [(TRUE if c else FALSE)[(i * 7 + var) % 5] if var % 3 else c
            for i, c in enumerate(cond)]
    calls = []
    log = []
    if case['kind'] == 'call':
        distinct = form == 5 or var % 6 == 0

        def pred(x):
            if distinct:
                k = els.index(x)
            else:
                k = len(calls)
            calls.append(k)
            return vals[k]
        c = Fn(pred) if var % 5 == 4 else pred
        csrc = None
    else:
        c, csrc = source(vals, (1, 0, 2, 4, 3)[var % 5])
    try:
        t, f = M.split(arg, c)
    except Exception as e:
        return [('create', repr(e))]
    it = {'T': iter(t), 'F': iter(f)}
    if it['T'] is not t or it['F'] is not f:
        return [('iterator', 'not iterators')]
    del t, f

    def check_counts():
        # (how far ahead the source is read is not judged)
        if src.pulls > n:
            return ('once', 'pulled', src.pulls)
        if len(set(calls)) != len(calls):
            return ('once', 'predicate evaluated again', calls)
        if src.iters > 1:
            return ('once', 'source iterated again')

    for st in case['hist']:
        op = st['op']
        if op[0] == 'D' and len(op) == 2:
            it.pop(op[1])
            log.append(op)
            continue
        try:
            got = next(it[op])
            ok = st['ret'] > 0 and got is els[st['ret'] - 1]
            log.append((op, repr(got)))
        except StopIteration:
            ok = st['ret'] == 0
            log.append((op, 'stop'))
        except Exception as e:
            ok = False
            log.append((op, repr(e)))
        if not ok:
            return [('value', 'expected', st['ret'])] + log
        bad = check_counts()
        if bad:
            return [bad] + log
    for side, i in it.items():
        try:
            got = list(i)
        except Exception as e:
            return [('drain', side, repr(e))] + log
        exp = [els[k - 1] for k in case['rest'][side]]
        if len(got) != len(exp) or any(a is not b for a, b in zip(got, exp)):
            return [('drain', side, repr(got), repr(exp))] + log
        log.append((side, 'drained'))
    bad = check_counts()
    if bad:
        return [bad] + log
    if case['kind'] == 'call' and sorted(calls) != list(range(n)):
        return [('once', 'predicate calls', calls)] + log
    if case['kind'] == 'iter' and form not in (2, 3, 5) and \
            src.pulls < case['lim']:
        return [('drain', 'source not consumed', src.pulls)] + log
    return None


def replay_exhaust(case, var):
    """exhaust() of the source, and of the two halves."""
    n, cond = case['n'], case['cond']
    els = [(TRUE if (i + var) % 2 else FALSE)[(i + var) % 5]
           for i in range(n)]
    if var % 6 > 3:
        els = elements(n, var % 6)
    src = OnceIter(els, True) if var // 6 % 2 else Reiterable(els, False)
    if var % 3 == 2:
        arg = map(lambda x: x, src)
    else:
        arg = src
    try:
        r = M.exhaust(arg)
    except Exception as e:
        return [('exhaust', repr(e))]
    if r is not None:
        return [('exhaust', 'returned', repr(r))]
    if src.pulls != n:
        return [('exhaust', 'consumed', src.pulls, 'of', n)]
    if src.once and list(src):
        return [('exhaust', 'left elements')]
    return None


def run_job(job):
    k = 0
    bad = 0
    for case in job['cases']:
        for var in job['vars']:
            k += 1
            r = replay(case, var) or replay_exhaust(case, var)
            if r:
                bad += 1
                if bad <= 5:
                    yield {'trace': {'case': case, 'var': var, 'got': r},
                           'clause': 'C18.' + str(r[0][0]), 'runs': 0}
    yield {'skip': True, 'runs': k}
