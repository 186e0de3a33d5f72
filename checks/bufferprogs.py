"""Programs for the buffer checks (C03, C07, C08)."""
TMO = [100, 100, 100, 40, 1000]
OUT = ['exc', 'exc', 'base', 'cancel', 'tmo', 'rt']
# gaps straddle the timeout, as fractions of it
GAPS = [0, 0, 0.03, 0.3, 0.5, 0.95, 1.0, 1.05, 1.7, 2.5]


def funcs(rng, tmo, fail=0.35, n=6):
    out = []
    for _ in range(rng.randint(0, n)):
        out.append([rng.choice([0, 0, -1, tmo * 0.31, tmo * 0.77,
                                tmo * 1.63, tmo * 3.27]),
                    rng.choice(OUT) if rng.random() < fail
                    else rng.choice(['ok', 'ok', 'ok', 'swallow'])])
    return out


def producer(rng, at, tmo, immediate):
    k = rng.choice(['call', 'call', 'map'] if immediate
                   else ['call', 'await', 'map', 'amap', 'amap'])
    if k == 'call':
        return [at, 'call']
    fail = rng.choice(OUT)
    delays = [rng.choice([0, 0, tmo * 0.23, tmo * 0.61, tmo * 1.31])
              for _ in range(rng.randint(1, 2))]
    if k == 'await':
        return [at, 'await', delays[0],
                fail if rng.random() < .3 else None,
                rng.choice(['coro', 'coro', 'task'])]
    n = rng.choice([0, 1, 1, 2, 3])
    pos = rng.randint(0, n) if rng.random() < .3 else None
    if k == 'map':
        if fail == 'cancel':
            fail = 'exc'       # a synchronous iterable does not raise that
        if immediate:
            return [at, 'map', rng.choice(['list', 'iter', 'range', 'gen']),
                    n, [], None, fail]
        return [at, 'map', rng.choice(['list', 'iter', 'gen', 'gen', 'gen']),
                n, delays, pos, fail]
    return [at, 'amap', rng.choice(['gen', 'iter']), n, delays, pos, fail]


def timed(rng, tmo, n, immediate, waits, foreign=False):
    t, out = 0, []
    for _ in range(rng.randint(1, n)):
        t += round(rng.choice(GAPS) * tmo)
        if waits and rng.random() < .3:
            out.append([t, 'wait', waits != 'soft' and rng.random() < .6,
                        (not foreign) and rng.random() < .4])
        else:
            out.append(producer(rng, t, tmo, immediate))
    return out


def vary(rng, p, imm):
    """Less usual ways of doing the same."""
    if rng.random() < .3:
        p['odd'] = True
    if rng.random() < .15:
        p['same'] = rng.choice([1, 1, 2, 3, 5])
    for f in p['funcs']:
        if rng.random() < .2:
            f.append(rng.choice(['clear', 'pop', 'add']))
    if rng.random() < .2:
        p['inner'] = [[rng.randint(0, 2), rng.choice(['start', 'end']),
                       producer(rng, 0, p['tmo'], imm)]
                      for _ in range(rng.choice([1, 1, 2]))]
    for a in p['own']:
        if a[1] == 'wait' and rng.random() < .4:
            a.append(rng.choice(['any', round(p['tmo'] * rng.choice(
                [.01, .4, .97, 1.3, 3]))]))
    if rng.random() < .3:
        p['hops'] = [rng.randint(0, 4) for _ in p['own']]
    return p


def tie(rng):
    """Several things at the very moment at which the function ends, or the
    timer expires, in every order."""
    dur = rng.choice([0, -1, 50, 50, 100, 200])
    at = rng.choice([100, 100 + max(dur, 0), 100 + max(dur, 0)])
    own = [[0, 'call']]
    if rng.random() < .3:
        own.append([100, 'call'])
        at += rng.choice([0, 100])
    for _ in range(rng.randint(1, 4)):
        own.append(rng.choice([[at, 'call'], [at, 'call'],
                               producer(rng, at, 100, False)]))
    for _ in range(rng.randint(1, 3)):
        own.append([at, 'wait', rng.random() < .5, False])
    rng.shuffle(own)
    return dict(tmo=100, form='direct', before=rng.random() < .3,
                funcs=[[dur, rng.choice(['ok', 'ok', 'ok', 'exc'])]
                       for _ in range(3)], own=own, foreign=[], shut=None,
                hops=[rng.randint(0, 5) for _ in own])


def single(rng, kind):
    """A program of the loop's own thread."""
    if kind == 'tie':
        return tie(rng)
    tmo = rng.choice(TMO)
    imm = kind == 'pure'
    p = dict(tmo=tmo, form=rng.choice(['deco', 'direct']),
             before=rng.random() < .3, funcs=funcs(rng, tmo),
             own=timed(rng, tmo, 8, imm, not imm or
                       rng.random() < .3 and 'soft'), foreign=[], shut=None)
    if kind == 'shut':
        end = max(a[0] for a in p['own'])
        p['shut'] = round(rng.random() * (end + 2.2 * tmo))
    elif not imm and rng.random() < .7:
        p['own'].append([p['own'][-1][0] + round(rng.choice(GAPS) * tmo),
                         'wait', rng.random() < .6, False])
    return vary(rng, p, imm)


def slow(p, x):
    """The same, x times as slowly."""
    def t(v):
        return round(v * x) if v and v > 0 else v

    def act(a):
        a = [t(a[0]), *a[1:]]
        if a[1] == 'await':
            a[2] = t(a[2])
        elif a[1] in ('map', 'amap'):
            a[4] = [t(d) for d in a[4] or ()]
        elif a[1] == 'wait' and len(a) > 4 and a[4] and a[4] != 'any':
            a[4] = t(a[4])
        return a
    p = dict(p, x=x, tmo=t(p['tmo']),
             funcs=[[t(f[0]), *f[1:]] for f in p['funcs']],
             own=[act(a) for a in p['own']],
             foreign=[[act(a) for a in f] for f in p['foreign']],
             shut=t(p['shut']))
    if 'inner' in p:
        p['inner'] = [[n, w, act(a)] for n, w, a in p['inner']]
    return p


def flood(rng, n, sheer=False):
    """Lots of arguments in a burst, which may last long."""
    tmo = rng.choice(TMO)
    gap = rng.choice([0, 0, .02, .3, .9] if n <= 100 else [0, 0, 0, .01])
    maps = rng.choice([0, .2])
    if sheer:                   # single calls at one instant
        gap = maps = 0
    t, own = 0, []
    while n > 0:
        if rng.random() < maps:
            k = rng.choice([1, 3, n])
            own.append([t, 'map', rng.choice(['list', 'iter', 'range',
                                              'gen']), k, [], None, 'exc'])
        else:
            k = 1
            own.append([t, 'call'])
        n -= k
        if rng.random() < .8:
            t += round(gap * tmo)
    for _ in range(2):
        t += round(rng.choice([.4, .9, 1.7]) * tmo)
        own.append([t, 'call'])
    return dict(tmo=tmo, form=rng.choice(['deco', 'direct']), before=False,
                funcs=funcs(rng, tmo, .2, 3), own=own, foreign=[],
                shut=None)


def foreign(rng, kind='mixed'):
    tmo = rng.choice(TMO)
    imm = kind == 'pure' or rng.random() < .5
    n = rng.choice([1, 1, 2])
    fs = []
    for _ in range(n):
        acts = timed(rng, tmo, 3, imm, kind != 'pure' or 'soft', True)
        if kind == 'wait':
            acts.append([acts[-1][0], 'wait', rng.random() < .6])
        fs.append(acts)
    own = timed(rng, tmo, 2, imm, kind != 'pure') if rng.random() < .7 else []
    return dict(tmo=tmo, form='direct', before=rng.random() < .3,
                funcs=funcs(rng, tmo, 0.25, 3), own=own, foreign=fs,
                shut=None)


def core():
    """Small foreign-thread programs for systematic preemption."""
    out = []
    for f in ([], [[0, 'exc']], [[30, 'ok']], [[30, 'exc']], [[0, 'base']],
              [[130, 'ok']]):
        for before in (False, True):
            b = dict(tmo=100, form='direct', before=before, funcs=f,
                     shut=None)
            out.append(dict(b, own=[[0, 'call']], foreign=[[[100, 'call']]]))
            out.append(dict(b, own=[], foreign=[
                [[0, 'call'], [0, 'wait', True]]]))
            out.append(dict(b, own=[[0, 'call']], foreign=[
                [[100, 'call'], [100, 'wait', True]]]))
            out.append(dict(b, own=[[0, 'call']], foreign=[
                [[100, 'call'], [100, 'wait', False]]]))
            out.append(dict(b, own=[[0, 'call'], [0, 'wait', True, True],
                                    [0, 'call']],
                            foreign=[[[0, 'call'], [0, 'call'],
                                      [0, 'wait', False]]]))
            out.append(dict(b, own=[[0, 'call'], [130, 'call'],
                                    [130, 'wait', True, False]],
                            foreign=[[[130, 'call'],
                                      [130, 'wait', True]]]))
            out.append(dict(b, own=[], foreign=[
                [[0, 'call'], [0, 'wait', True]],
                [[0, 'call'], [0, 'wait', True]]]))
    return out


def jobs(rng, singles, kinds, ncore, core_single, nforeign, fsingle, rnd,
         double=0, fkind='mixed'):
    js = []
    for i in range(0, singles, 50):
        js.append(dict(progs=[single(rng, kinds[(i + j) % len(kinds)])
                              for j in range(50)]))
        js[-1]['progs'][0] = slow(js[-1]['progs'][0],
                                  rng.choice([300, 3000]))
    for n in [30, 30, 100, 100, 100, 300, 300, 1200]:
        for _ in range(max(1, singles // 10000)):
            js.append(dict(progs=[flood(rng, n)]))
    js += [dict(progs=[flood(rng, n, True)]) for n in (40, 300, 1200, 1200)]
    c = core()
    rng.shuffle(c)
    for p in c[:ncore]:
        js.append(dict(prog=p, seed=rng.randrange(10 ** 9),
                       single=core_single, random=rnd, double=double))
    for _ in range(nforeign):
        p = foreign(rng, fkind)
        if rng.random() < .05:
            p = slow(p, rng.choice([300, 3000]))
        js.append(dict(prog=p, single=fsingle, random=rnd,
                       seed=rng.randrange(10 ** 9), double=double // 4))
    rng.shuffle(js)
    return js


def designs(ctx):
    for c in ['A', 'B', 'S'] + (['C', 'D'] if ctx.thorough else []):
        ctx.check_design('Buffer', 'Buffer' + c)
    if ctx.thorough:      # without the repairs the design is wrong
        for c in ['X1', 'X2']:
            ctx.refute_design('Buffer', 'Buffer' + c)
