"""Programs for the batcher checks (C04, C09, C10, C11)."""
BTO = [100, 100, 50]
GAPS = [0, 0, 0, 0.1, 0.5, 0.95, 1.0, 1.05, 1.6, 3.1]
NAMES = ['1', 'a', '', 'None', 'k2', 'z']
ACTS = ['val', 'val', 'falsy', 'exc', 'exc', 'key', 'attr', 'tmo', 'qe',
        'inv', 'stop', 'omit', 'same', 'none', 'cls', 'trap', 'baseobj',
        'cancobj', 'fut', 'tup']
KINDS = ['exc', 'exc', 'base', 'cancel', 'tmo', 'key', 'stop', 'astop', 'rt',
         'val', 'qe']


def behaviour(rng, bto, bad):
    """bad: how adverse (0: values and exceptions only)"""
    b = dict(pre=rng.choice([0, 0, -1, bto * 0.31, bto * 1.37, bto * 2.9]),
             order=rng.choice(['fwd', 'rev', rng.randrange(100)]),
             step=rng.choice([0, 0, -1, bto * 0.13, bto * 0.77]),
             post=rng.choice([0, 0, -1, bto * 0.43, bto * 2.3]))
    if bad == 0:
        b['acts'] = [rng.choice(['val', 'val', 'falsy', 'exc', 'none', 'same'])
                     for _ in range(5)]
        return b
    b['acts'] = [rng.choice(ACTS) for _ in range(5)]
    if rng.random() < .08:          # nothing or everything at once
        b['acts'] = [rng.choice(['omit', 'omit', 'exc', 'val'])] * 5
    if rng.random() < .1:
        b['eat'] = True
    r = rng.random()
    b['kind'] = rng.choice(KINDS)
    if r < .25:
        b['acts'][rng.randrange(5)] = 'raise'
    elif r < .33:
        b['acts'][rng.randrange(5)] = rng.choice(['twice', 'unknown'])
    elif r < .4:
        b['fin'] = True
    elif r < .5:
        b['fn'] = rng.choice(['sync', 'none', 'iter', 'iter'])
    return b


def rnd(x):
    return int(round(x))


def program(rng, kind):
    bto = rng.choice(BTO)
    p = dict(bto=bto, size=rng.randint(1, 5), conc=rng.randint(1, 3),
             form=rng.choice(['direct', 'direct', 'deco', 'decoopt']),
             ret=rng.choice([0, 0, 0, rnd(bto * .4), bto * 3, bto * 12]))
    bad = {'C04': 1, 'C09': rng.choice([0, 0, 1]), 'C10': 0,
           'C11': rng.choice([0, 0, 0, 1])}[kind]
    names = rng.sample(NAMES, {'C04': rng.randint(1, 6), 'C09':
                               rng.randint(1, 4), 'C10': 6,
                               'C11': rng.randint(1, 3)}[kind])
    n = rng.randint(1, {'C04': 10, 'C09': 8, 'C10': 12, 'C11': 10}[kind])
    t, calls = 0, []
    gaps = GAPS
    if kind == 'C11':
        r = p['ret'] / bto or 1
        gaps = GAPS + [r * .9, r, r * 1.1, r * .5, r + .3, 2 * r]
    many = kind == 'C10' and rng.random() < .7
    for i in range(n):
        t += rnd(rng.choice(gaps) * bto)
        name = str(i) if many else rng.choice(names)
        key = None
        if rng.random() < .3:
            key, name = name, rng.choice(['1', 'same', ''])
        calls.append([t, name, key, None])
    if kind == 'C09':
        end = t + 4 * bto
        for c in rng.sample(calls, rng.randint(1, max(1, n // 2))):
            if rng.random() < .7:
                c[3] = ['at', c[0] + rnd(rng.choice(
                    [0, 0, .1, .5, .96, 1, 1.04, 1.2, 1.5, 2, 3, 4.5])
                    * bto * rng.choice([1, 1, .37]))]
            else:
                c[3] = ['wf', max(1, rnd(rng.choice(
                    [.02, .3, .97, 1.03, 1.4, 2.2, 3.6]) * bto))]
        if rng.random() < .6:       # fresh calls afterwards
            for k in range(rng.randint(1, 2)):
                end += rnd(rng.choice([0, .5, 3, 13]) * bto)
                calls.append([end, rng.choice(names), None, None])
    if rng.random() < .04:          # lots of calls
        p['size'] = rng.choice([7, 16, 40, 100])
        t = calls[-1][0] if calls else 0
        for i in range(rng.choice([20, 60, 150])):
            t += rnd(rng.choice([0] * 12 + gaps[4:8]) * bto)
            calls.append([t, f'n{i}', None, None])
        if kind == 'C11':           # and all of them again
            t += rnd(rng.choice([.5, .9, 1.1]) * (p['ret'] or bto))
            again = [c[1] for c in calls if c[1][:1] == 'n']
            rng.shuffle(again)
            for name in again:
                t += rnd(rng.choice([0] * 12 + [.1]) * bto)
                calls.append([t, name, None, None])
    p['calls'] = calls
    p['batches'] = [behaviour(rng, bto, bad) for _ in range(4)]
    if kind == 'C10' and rng.random() < .3:
        p['form'] = 'direct'
        p['max'] = sorted([rnd(rng.random() * (t + bto)), rng.randint(1, 5)]
                          for _ in range(rng.randint(1, 3)))
    if rng.random() < .2:           # several things at one instant
        step = rng.choice([bto, bto // 2])
        for c in p['calls']:
            c[0] = rnd(c[0] / step) * step
        for b in p['batches']:
            for f in ('pre', 'step', 'post'):
                b[f] = rng.choice([-1, 0, 0, 1, 1, 2]) * step
        p['calls'].sort(key=lambda c: c[0])
        p['hops'] = [rng.randint(0, 6) for _ in range(5)]
        for c in p['calls']:
            if c[3] and c[3][0] == 'at':
                c[3][1] = max(c[0], rnd(c[3][1] / step) * step)
    if rng.random() < .15:
        rng.choice(p['batches'])['inner'] = [
            rng.choice(names) for _ in range(rng.randint(1, 3))]
    if rng.random() < .15:
        p['twin'] = True
    p['same'] = rng.choice(['val', 'exc'])
    for b in p['batches']:
        for f in ('pre', 'step', 'post'):
            b[f] = rnd(b[f])
    if rng.random() < .02:
        p = slow(p, rng.choice([300, 3000]))
    return p


def slow(p, x):
    """The same, x times as slowly."""
    def t(v):
        return v * x if v and v > 0 else v
    p = dict(p, x=x, bto=t(p['bto']), ret=t(p['ret']))
    p['calls'] = [[t(c[0]), c[1], c[2], c[3] and [c[3][0], t(c[3][1])]]
                  for c in p['calls']]
    p['batches'] = [dict(b, pre=t(b['pre']), step=t(b['step']),
                         post=t(b['post'])) for b in p['batches']]
    if 'max' in p:
        p['max'] = [[t(m[0]), m[1]] for m in p['max']]
    return p


def run(ctx, kind, clauses, n):
    for c in ['A', 'B', 'C'] + (['D', 'E', 'F'] if ctx.thorough else []):
        ctx.check_design('Batcher', 'Batcher' + c)
    if ctx.thorough:
        for c in ['X1', 'X2']:
            ctx.refute_design('Batcher', 'Batcher' + c)
    progs = [program(ctx.rng, kind) for _ in range(n)]
    jobs = [dict(progs=progs[i:i + 250]) for i in range(0, n, 250)]
    o = ctx.execute('batcher', jobs)
    ctx.validate('BatcherTrace', 'batcher', jobs, o, clauses, chunk=800)
