"""Iterator bridges preserve the sequence and propagate errors."""
CLAUSES = {'sequence', 'error', 'thread', 'blocked', 'hangs'}
EXC = ['E1', 'E2', 'E3', 'val', 'key', 'rt', 'tmo', 'os', 'gen', 'empty',
       'qe', 'mem', 'eof', 'none', 'canc', 'kbd', 'exit', 'stopa']
NV = 17
DUR = [[], [], [0], [30], [120], [0, 130], [400, 0, 0], [170, 60]]


def bridge(rng, d, n=None):
    n = rng.randint(0, 6) if n is None else n
    fin = rng.choice(EXC) if rng.random() < .5 else 'stop'
    shape = rng.choice(['gen', 'gen', 'iter', 'iterable'] +
                       (['list', 'listiter', 'tuple', 'map']
                        if d == 'async' else []))
    durs = rng.choice(DUR)
    if shape in ('list', 'listiter', 'tuple', 'map'):
        fin = 'stop'
    # what isn't an iterator is iterated on the loop itself
    if shape in ('list', 'listiter', 'tuple', 'map', 'iterable') \
            and d == 'async':
        durs = []
    few = rng.sample(range(1, NV + 1), 2)
    return dict(shape=shape, fin=fin, durs=durs, gaps=rng.choice(DUR),
                xs=[rng.choice(few) if rng.random() < .5
                    else rng.randint(1, NV) for _ in range(n)],
                lock=shape in ('gen', 'iter') and rng.random() < .2,
                loop=rng.random() < .3, inloop=rng.random() < .2)


def check(ctx):
    for d in ('asyncA', 'syncA'):
        ctx.check_design('Bridge', 'Bridge' + d)
    if ctx.thorough:
        for d in ('asyncX1', 'asyncX2'):
            ctx.refute_design('Bridge', 'Bridge' + d)
    rng = ctx.rng
    progs = []
    for d in ('async', 'sync'):
        # every length and every failing position
        for n in range(7):
            for fin in ['stop'] + rng.sample(EXC, ctx.pick(5, len(EXC))):
                b = bridge(rng, d, n)
                b.update(fin=fin, shape=rng.choice(['gen', 'iter']))
                progs.append(dict(dir=d, bridges=[b]))
        for _ in range(ctx.pick(120, 1500)):
            progs.append(dict(dir=d, bridges=[
                bridge(rng, d) for _ in range(rng.choice([1, 1, 1, 2, 3]))]))
    rng.shuffle(progs)
    jobs = [dict(progs=progs[i:i + 2], seed=rng.randrange(10 ** 9),
                 single=ctx.pick(50, 250), random=ctx.pick(25, 80),
                 double=ctx.pick(5, 80)) for i in range(0, len(progs), 2)]
    # it takes minutes
    for d in ('async', 'sync'):
        for _ in range(ctx.pick(12, 60)):
            b = bridge(rng, d, rng.randint(1, 4))
            b.update(shape=rng.choice(['gen', 'iter']),
                     durs=rng.choice([[400], [0, 130], [170, 60]]))
            for f in ('durs', 'gaps'):
                b[f] = [2000 * v for v in b[f]]
            jobs.append(dict(progs=[dict(dir=d, bridges=[b], x=2000)],
                             seed=rng.randrange(10 ** 9), single=3,
                             random=2))
    # far ahead of the consumer
    for d in ('async', 'sync'):
        for n in (70, 300, 1500):
            for _ in range(ctx.pick(1, 6)):
                b = bridge(rng, d, n)
                b.update(lock=False, durs=rng.choice([[], [0]]),
                         gaps=rng.choice([[], [200] + [0] * 5000]))
                jobs.append(dict(progs=[dict(dir=d, bridges=[b])],
                                 seed=rng.randrange(10 ** 9), single=1,
                                 random=1))
    o = ctx.execute('bridge', jobs, deadline=ctx.pick(120, 500))
    ctx.validate('BridgeTrace', 'bridge', jobs, o, CLAUSES, chunk=800)
