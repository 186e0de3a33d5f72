"""Programs for the cache checks (C01, C05, C06)."""

DURS = [0, 0, -1, 10, 10, 20, 50]
AFTER = ['shutdown', 'shutdown', 'close', 'stop', 'drop']


def phase(calls, leave=None, after='shutdown', **kw):
    return dict(calls=calls, leave=leave, after=after, **kw)


def th(start, *phases):
    return dict(start=start, phases=list(phases))


def P(funcs, *threads, map='none', **kw):
    return dict(kw, funcs=funcs, threads=list(threads), map=map)


def core():
    """Small programs whose single preemptions are all tried."""
    out = []
    ok, exc = [[10, 'ok']], [[10, 'exc'], [10, 'ok']]
    zero = [[0, 'ok']]
    c = [1, 0, None]
    for f in (ok, zero, [[-1, 'ok']], exc, [[0, 'exc'], [0, 'ok']],
              [[10, 'key'], [10, 'rt'], [10, 'ok']]):
        out.append(P([f], th(0, phase([c])), th(0, phase([c]))))
        out.append(P([f], th(0, phase([c], after='stop')),
                     th(0, phase([c], after='stop'))))
        out.append(P([f], th(0, phase([c], direct=True)),
                     th(0, phase([c], direct=True, after='close'))))
        out.append(P([f], th(0, phase([c, c])), th(5, phase([c])),
                     map='map'))
        out.append(P([f], th(0, phase([c])), th(0, phase([c])),
                     th(0, phase([c]))))
    # the computing loop goes away in the middle
    for after in AFTER:
        for leave in (5, 10):
            for gap in (0, 20):
                out.append(P([[[10, 'ok']]],
                             th(0, phase([c], leave, after, gap=gap)),
                             th(0, phase([[1, 2, None]]))))
        out.append(P([[[10, 'ok']]], th(0, phase([c], 5, after)),
                     th(0, phase([[1, 2, None]])),
                     th(0, phase([[1, 3, None]]))))
        out.append(P([[[10, 'ok']]], th(0, phase([c], 5, after, gap=3)),
                     th(7, phase([[1, 0, None]]))))
        # a host of other loops' waits goes away after it has computed
        out.append(P([[[10, 'exc'], [10, 'ok']]],
                     th(0, phase([c], None, after)),
                     th(0, phase([[1, 2, None]])),
                     th(0, phase([[1, 2, None]]))))
    # the mapping forgets
    for f in ([[0, 'ok']], [[10, 'ok']], [[10, 'exc'], [10, 'ok']]):
        d = max(x[0] for x in f)
        for cap in (None, 0, 1):
            ev = [[2 * d, 0]] if cap is None else []
            out.append(P([f], th(0, phase([c])), th(0, phase([c])),
                         th(2 * d, phase([c])), evict=ev, cap=cap))
            out.append(P([f], th(0, phase([c, c, [1, 2 * d, None]])),
                         evict=ev, cap=cap))
        out.append(P([f, f], th(0, phase([c, [2, 0, None]])),
                     th(0, phase([[2, 0, None], c])), evict=[], cap=1))
    # cancellations
    for cut in (0, 5, 10, 15):
        out.append(P([[[10, 'ok']]], th(0, phase([[1, 0, cut]])),
                     th(0, phase([[1, 2, None]]))))
        out.append(P([[[10, 'ok']]], th(0, phase([c])),
                     th(0, phase([[1, 2, cut], [1, 2, None]]))))
        out.append(P([[[10, 'exc'], [10, 'ok']]],
                     th(0, phase([[1, 0, cut], c])),
                     th(0, phase([[1, 2, None]]))))
        out.append(P([[[10, 'ok']]],
                     th(0, phase([[1, 0, cut], [1, 1, None], [1, 1, cut]]))))
    # long computations
    for d in (59000, 60000, 61000, 130000):
        out.append(P([[[d, 'ok']]], th(0, phase([c])),
                     th(0, phase([[1, 1, None]]))))
        out.append(P([[[d, 'ok']]], th(0, phase([c], 30000, 'stop')),
                     th(0, phase([[1, 1, None]])),
                     th(0, phase([[1, 20000, None]]))))
    return out


def program(rng, evict=False):
    nk = rng.choice([1, 1, 1, 2])
    funcs = []
    for _ in range(nk):
        beh = []
        for _ in range(rng.randint(1, 3)):
            beh.append([rng.choice(DURS + [70000] * (rng.random() < .1)),
                        rng.choice(['ok', 'ok', 'ok', 'exc', 'key', 'tmo',
                                    'rt', 'base', 'stop'])])
        if beh[-1][1] != 'ok':
            beh.append([rng.choice(DURS), 'ok'])
        funcs.append(beh)
    ths = []
    for _ in range(rng.choice([1, 2, 2, 2, 3, 3, 4])):
        phs = []
        for _ in range(rng.choice([1, 1, 2])):
            calls = [[rng.randint(1, nk), rng.choice([0, 0, 0, 2, 10, 25]),
                      rng.choice([None, None, None, 0, 5, 10, 30])]
                     for _ in range(rng.randint(1, 3))]
            leave = rng.choice([None, None, 0, 5, 10, 20])
            phs.append(phase(calls, leave, rng.choice(AFTER),
                             gap=rng.choice([0, 0, 5, 20]),
                             direct=rng.random() < .3))
        ths.append(th(rng.choice([0, 0, 0, 5, 10]), *phs))
    p = P(funcs, *ths, map=rng.choice(['none', 'dict', 'odd', 'map']))
    r = rng.random()
    if r < .1 and not evict:
        p['none'] = True
    elif r < .25 or evict:
        p['cap'] = rng.choice([None, None, 0, 1])
        p['evict'] = sorted([rng.choice([0, 10, 10, 20, 25, 35]),
                             rng.choice([0, 1, nk])]
                            for _ in range(rng.randint(1, 3)))
    return p


def crowd(rng):
    """Lots of callers and/or keys."""
    nk = rng.choice([1, 2, 12, 40, 150])
    funcs = []
    for _ in range(nk):
        beh = [[rng.choice(DURS), rng.choice(['ok', 'ok', 'exc', 'rt'])]
               for _ in range(rng.randint(0, 2))]
        funcs.append(beh + [[rng.choice(DURS), 'ok']])
    n = max(rng.choice([20, 40, 80]), nk)
    nt = rng.choice([1, 2, 3])
    ths = []
    for t in range(nt):
        calls = [[rng.randint(1, nk) if i >= nk else i + 1,
                  rng.choice([0, 0, 0, 2, 10, 25, 60, 90]),
                  rng.choice([5, 10]) if rng.random() < .1 else None]
                 for i in range(n)]
        calls += [[k + 1, 200, None] for k in range(nk)]
        ths.append(th(rng.choice([0, 0, 5]), phase(calls)))
    return P(funcs, *ths, map=rng.choice(['none', 'none', 'dict', 'map']),
             big=True)


def evictions(rng, n, single, rnd):
    """Mappings which forget while they are used."""
    ps = [p for p in core() if 'evict' in p]
    ps += [program(rng, True) for _ in range(n)]
    return [dict(prog=p, seed=rng.randrange(10 ** 9), single=single,
                 random=rnd) for p in ps]


def jobs(rng, core_single, nrandom, single, rnd, double=0, gc=0):
    js = [dict(prog=p, seed=rng.randrange(10 ** 9), single=core_single,
               random=rnd, double=double, gc=gc) for p in core()]
    for _ in range(nrandom):
        js.append(dict(prog=program(rng), seed=rng.randrange(10 ** 9),
                       single=single, random=rnd, double=double // 4,
                       gc=gc))
    for _ in range(nrandom // 10):
        js.append(dict(prog=crowd(rng), seed=rng.randrange(10 ** 9),
                       single=2, random=2))
    rng.shuffle(js)
    return js
