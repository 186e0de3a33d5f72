"""Decorators with options and applied directly; batchers per loop."""
from checks import bufferprogs

TMOS = [10, 40, 100, 250, 1000, 2500, None]


def nat(rng, p):
    """Without exact ties or steps of no length."""
    for f in p['funcs']:
        if f[0] < 0:
            f[0] = 0
    return p


def buffer_case(rng, tmo):
    """A probe of the timeout, and sometimes more."""
    if rng.random() < .3:
        p = nat(rng, bufferprogs.single(rng, rng.choice(['pure', 'mixed'])))
        p['shut'] = None
        if tmo is not None:
            k = tmo / p['tmo']
            for a in p['own']:
                a[0] = round(a[0] * k)
                if a[1] in ('await',):
                    a[2] = round(a[2] * k)
            p['tmo'] = tmo
            return p
    t = 100 if tmo is None else tmo
    own, at = [], 0
    for _ in range(rng.randint(1, 6)):
        at += round(rng.choice([0, .3, .9, .93, 1.1, 1.3, 2.2]) * t)
        own.append([at, 'call'])
    return dict(tmo=tmo, before=rng.random() < .3, own=own, foreign=[],
                funcs=[[round(rng.choice([0, .2, .6, 1.7]) * t),
                        rng.choice(['ok', 'ok', 'exc'])]
                       for _ in range(rng.randint(0, 3))], shut=None)


NAMES = ['a', 'b', 'c', '1']


def calls(rng, eff, n):
    t, out = 3, []
    for _ in range(rng.randint(1, n)):
        t += round(rng.choice([0, 0, .3, .9, 1.2, 3.3])
                   * (eff['bto'] or 10)) + rng.choice([0, 1, 7])
        if rng.random() < .2:
            t += eff['ret']
        out.append([t, rng.choice(NAMES), rng.choice(
            [0, 3, eff['bto'], 2 * eff['bto']]), rng.choice(
            [None, None, None, 'k'])])
    return out


def loops_case(rng, cfgs, together):
    c = rng.choice(cfgs)
    many = rng.random() < .15
    n = rng.randint(2, 7 if many else 3) if together \
        else rng.randint(8, 20) if many else rng.randint(1, 5)
    progs = []
    if together:
        same = rng.random() < .5
        cs = calls(rng, c['eff'], 3)
        for i in range(n):
            progs.append([i + 1, cs if same else calls(rng, c['eff'], 3),
                          True])
    else:
        nl = rng.randint(5, 9) if many else rng.randint(1, 3)
        last = 0
        for i in range(n):
            lp = rng.randint(1, nl)
            progs.append([lp, calls(rng, c['eff'], 4), rng.random() < .6])
    return dict(cfg=c['cfg'], eff=c['eff'], together=together, progs=progs,
                form=rng.choice(['direct', 'opts']))


def check(ctx):
    rng = ctx.rng
    ctx.check_design('Loops', 'LoopsA')
    if ctx.thorough:
        ctx.check_design('Loops', 'LoopsB')
        for c in ['X1', 'X2']:
            ctx.refute_design('Loops', 'Loops' + c)
    cfgs = ctx.generate('Forms')
    cases = ctx.generate('FormsCache', ctx.pick('FormsCache', 'FormsCacheD'))
    jobs = []
    for i in range(0, len(cases), 200):
        jobs.append(dict(mode='cache', cases=cases[i:i + 200]))
    for i in range(0, len(cfgs), 12):
        jobs.append(dict(mode='batcher', cases=cfgs[i:i + 12]))
    # more than the probes
    for _ in range(ctx.pick(20, 300)):
        cs = []
        for _ in range(12):
            c = rng.choice(cfgs)
            cs.append(dict(cfg=c['cfg'], eff=c['eff'],
                           calls=calls(rng, c['eff'], 8)))
        jobs.append(dict(mode='batcher', cases=cs))
    bs = [buffer_case(rng, t) for t in TMOS for _ in range(ctx.pick(20, 300))]
    for i in range(0, len(bs), 20):
        jobs.append(dict(mode='buffer', cases=bs[i:i + 20]))
    for _ in range(ctx.pick(20, 300)):
        jobs.append(dict(mode='loops', cases=[
            loops_case(rng, cfgs, False) for _ in range(20)]))
    for _ in range(ctx.pick(40, 500)):
        jobs.append(dict(mode='loops', seed=rng.randrange(10 ** 9),
                         single=ctx.pick(40, 300), random=ctx.pick(20, 100),
                         cases=[loops_case(rng, cfgs, True)]))
    rng.shuffle(jobs)
    o = ctx.execute('forms', jobs, deadline=ctx.pick(150, 450))
    for r in o.results:
        if r.get('clause') == 'cache':
            ctx.violation('cache', 'forms', jobs[r['job']], r['trace'], r)
    rest = [r for r in o.results if 'kind' in r]
    o.results = rest
    ctx.traces += len(cases)
    ctx.validate('BatcherTrace', 'forms', jobs, o, chunk=800, kind='batcher')
    ctx.validate('BatcherTrace', 'forms', jobs, o, chunk=800, kind='loops')
    ctx.validate('BufferTrace', 'forms', jobs, o, chunk=800, kind='buffer',
                 clauses={'early', 'late', 'not_together', 'wait_hangs',
                          'lost'})
    ctx.validate('Pair', 'forms', jobs, o, chunk=800, kind='pair')
