"""C19: replay of Parse.tla / ParseList.tla cases on parse_to_dict."""
import sys
import builtins
from collections import UserDict, OrderedDict
from fractions import Fraction
from types import MappingProxyType

P = None
TRIPS = []


class Trip:
    """Records every evaluation."""
    def __call__(self, *a, **k):
        TRIPS.append('call')

    def __getattr__(self, name):
        if not name.startswith('__'):
            TRIPS.append('attr ' + name)
        raise AttributeError(name)

    def __getitem__(self, i):
        TRIPS.append('item')
        raise IndexError

    def __bool__(self):
        TRIPS.append('bool')
        return True

    def __neg__(self):
        TRIPS.append('neg')

    def __iter__(self):
        TRIPS.append('iter')
        return iter(())

    def __str__(self):
        TRIPS.append('str')
        return 'trip'

    def __repr__(self):
        return '<trip>'


TRIP = Trip()
OBJ = {'int5': 5, 'none': None, 'tuple': (1, '2'), 'list': ['1'],
       'bytes': b'1', 'trip': TRIP, 'false': False}
PASSED = list(OBJ.values())


def setup(repo):
    global P
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, repo)
    import aiuti.parsing as m
    P = m.parse_to_dict
    builtins.tw = TRIP
    sys.addaudithook(audit)


WATCH = False


def audit(ev, a):
    # code made from a text has no file (unlike a lazy import)
    if ev == 'exec' and WATCH:
        name = getattr(a[0], 'co_filename', '')
        if name.startswith('<') and not name.startswith('<frozen'):
            TRIPS.append('exec ' + name)


CH = {'BEL': '\a', 'BS': '\b', 'VT': '\v'}


def chars(cs):
    return ''.join(CH.get(c, c) for c in cs)


def num(v):
    sign = -1 if v[1] == '-' else 1
    if v[0] == 'int':
        return sign * int(''.join(v[2]))
    es, ed, fr = v[3]
    e = int(''.join(ed) or '0') * (-1 if es == '-' else 1) - fr
    m = int(''.join(v[2]))
    try:
        f = float(Fraction(m) * Fraction(10) ** e) if m else 0.0
    except OverflowError:
        f = float('inf')
    f = sign * f
    return f


def decode(v):
    k = v[0]
    if k in ('int', 'float'):
        return num(v)
    if k == 'imag':
        s = v[1]
        r = complex(0, num([k, '+', *v[2:]]))
        return -r if s == '-' else r
    if k == 'complex':
        re, im = v[1], v[2]
        i = complex(0, num(['imag', '+', *im[2:]]))
        return num(re) - i if im[1] == '-' else num(re) + i
    if k == 'str':
        return chars(v[1])
    if k == 'bytes':
        return chars(v[1]).encode()
    if k == 'name':
        return {'None': None, 'True': True, 'False': False}[''.join(v[1])]
    if k == 'tuple':
        return tuple(map(decode, v[1]))
    if k == 'list':
        return list(map(decode, v[1]))
    if k == 'set':
        return set(map(decode, v[1]))
    if k == 'dict':
        return dict(zip(map(decode, v[1]), map(decode, v[2])))
    if k == 'ellipsis':
        return ...
    if k == 'obj':
        return OBJ[v[1]]
    raise ValueError(k)


def same(a, b):
    """Equal, of equal types all the way down."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, (float, complex)):
        return repr(a) == repr(b)
    return a == b


def call(*a, **k):
    global WATCH
    del TRIPS[:]
    WATCH = True
    try:
        r = ('ok', P(*a, **k))
    except Exception as e:
        r = ('err', e)
    finally:
        WATCH = False
    return r


def judge(res, exp, what, unhashable=False):
    """exp: dict or None (ValueError)"""
    if TRIPS:
        return ('eval', what, list(TRIPS))
    kind, r = res
    if exp is None:
        if kind == 'ok' or not isinstance(r, ValueError):
            return ('no_separator', what, repr(r)[:200])
        return None
    if kind == 'err':
        if unhashable and isinstance(r, TypeError):
            return None
        return ('raised', what, repr(r)[:200])
    if unhashable:
        return None
    if type(r) is not dict or not same(r, exp):
        return ('value', what, repr(r)[:200], repr(exp)[:200])
    for x in r.values():
        if not any(x is o for o in PASSED):
            spoil(x)
    return None


def spoil(x):
    """What is done to a result must not matter later on."""
    if type(x) is list:
        x.append('spoilt')
    elif type(x) is dict:
        x['spoilt'] = x
    elif type(x) is set:
        x.add('spoilt')
    elif type(x) is tuple:
        for y in x:
            spoil(y)


def text_case(c):
    text = chars(c['text'])
    lit = decode(c['lit'])
    for what, items in (('map', {'k': text}), ('pair', [('k', text)])):
        b = judge(call(items), {'k': lit}, what)
        if b:
            return b
    try:
        hash(lit)
        hashable = True
    except TypeError:
        hashable = False
    b = judge(call([(text, 'v')]), {lit: 'v'} if hashable else {}, 'key',
              not hashable)
    if b:
        return b
    b = judge(call([(text, text)], parse_keys=False), {text: lit}, 'rawkey')
    if b:
        return b
    for s in c['splits']:
        sep = chars(s['sep'])
        if s['err']:
            for pk in (True, False):
                b = judge(call([text], sep=sep, parse_keys=pk), None,
                          ('split', sep))
                if b:
                    return b
            continue
        k, v = decode(s['key']), decode(s['val'])
        b = judge(call([text], sep=sep), {k: v} if s['hashable'] else {},
                  ('split', sep), not s['hashable'])
        if b:
            return b
        rk = chars(s['rawkey'])
        b = judge(call(iter([text]), sep=sep, parse_keys=False), {rk: v},
                  ('split raw', sep))
        if b:
            return b
        # custom parsers: failures keep the text
        rv = chars(s['rawval'])

        def only_a(x):
            if x.startswith('a'):
                return ['A', x]
            raise (KeyError, ValueError, SyntaxError, RuntimeError)[
                len(x) % 4](x)
        b = judge(call([text], sep=sep, parse=only_a, parse_keys=False),
                  {rk: ['A', rv] if rv.startswith('a') else rv},
                  ('parse', sep))
        if b:
            return b
    return None


def list_case(c):
    items = []
    for it in c['items']:
        if it['form'] == 'str':
            items.append(chars(it['text']))
        else:
            items.append(tuple(
                chars(x[1]) if x[0] == 'text' else OBJ[x[1]]
                for x in (it['key'], it['val'])))
    unh = not c['hashable']
    if any(e['err'] for e in c['exp']):
        exp = None
        if unh:
            return None
    else:
        exp = {} if unh else dict((decode(e['key']), decode(e['val']))
                                  for e in c['exp'])
    pk = c['pk']
    forms = [('list', list(items)), ('tuple', tuple(items)),
             ('gen', (x for x in items))]
    if all(isinstance(x, tuple) for x in items):
        forms.append(('lists', [list(x) for x in items]))
        d = dict(items)
        if len(d) == len(items):
            forms += [('dict', d), ('proxy', MappingProxyType(d)),
                      ('userdict', UserDict(d)),
                      ('odict', OrderedDict(d)), ('items', d.items())]
        if all(isinstance(k, str) and isinstance(v, str)
               and '=' not in k for k, v in items):
            forms.append(('strings', [f'{k}={v}' for k, v in items]))
    for what, f in forms:
        before = repr(f) if what in ('dict', 'list') else None
        res = call(f) if pk else call(f, parse_keys=False)
        b = judge(res, exp, what, unh)
        if b:
            return b
        if before is not None and repr(f) != before:
            return ('mutated', what)
        if exp is not None and not unh:
            for v in (5, TRIP):
                pass
            for it, e in zip(items, c['exp']):
                if isinstance(it, tuple) and not isinstance(it[1], str):
                    k = decode(e['key'])
                    if sum(1 for o in c['exp']
                           if decode(o['key']) == k) == 1 \
                            and res[1][k] is not it[1]:
                        return ('untouched', what)
    return None


def extras():
    """Inputs outside TLC's range: sizes."""
    deep = '(' * 5000 + ')' * 5000
    lst = '[' * 150 + ']' * 150
    for text in (deep, '[' * 100000, '9' * 5000, '1\0', '\0', '-' * 3000 + '1',
                 '+'.join(['1'] * 3000), '\ud800', '"\\ud800"x', '1\n2',
                 '\n1\n2', '0x', '0b2', "'\\x'", "'\\N{nope}'", 'tw ' * 50):
        for res, exp in ((call({'k': text}), {'k': text}),
                         (call([(text, '1')]), {text: 1}),
                         (call(['k=' + text]), {'k': text})):
            b = judge(res, exp, ('size', text[:20]))
            if b:
                return b
    v = []
    for _ in range(149):
        v = [v]
    # CPython's limit is close: either the value or the text
    res = call({'k': lst})
    if judge(res, {'k': v}, 'nest') and judge(res, {'k': lst}, 'nest'):
        return ('value', 'nest')
    for text, val in (('9' * 400, int('9' * 400)), ('0x1F', 31),
                      ("'\\x41\\u0042'", 'AB'), ('1\n', 1), ('...', ...),
                      ('1 # c', 1), ('0b11', 3), ('[1,\n2]', [1, 2]),
                      ("'" + 'a' * 100000 + "'", 'a' * 100000)):
        b = judge(call({'k': text}), {'k': val}, ('literal', text[:20]))
        if b:
            return b
    b = judge(call([]), {}, 'empty') or judge(call({}), {}, 'empty') \
        or judge(call(iter(())), {}, 'empty')
    if b:
        return b
    big = [f'{i}={i}' for i in range(2000)]
    return judge(call(big), {i: i for i in range(2000)}, 'many')


def run_job(job):
    n = bad = 0
    if job.get('extras'):
        r = extras()
        n += 1
        if r:
            yield {'trace': {'case': 'extras', 'got': repr(r)},
                   'clause': 'C19.' + r[0], 'runs': 0}
    for c in job['cases']:
        n += 1
        r = text_case(c) if 'text' in c else list_case(c)
        if r:
            bad += 1
            if bad <= 5:
                yield {'trace': {'case': c, 'got': repr(r)},
                       'clause': 'C19.' + r[0], 'runs': 0}
    yield {'skip': True, 'runs': n}
