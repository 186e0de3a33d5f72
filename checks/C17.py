"""Cross-loop awaiting."""
CLAUSES = {'outcome', 'closed', 'wrong_loop', 'twice', 'not_up',
           'two_runners', 'not_running', 'not_stopped', 'late', 'hangs',
           'stop_hangs', 'stop_raised', 'lit_raised'}
OUT = ['val', 'val', 'val', 'none', 'excval', 'e1', 'base', 'tmo', 'val',
       'key', 'rt', 'gen', 'cancel']
DELAY = [0, 0, 0, 0, -1, -1, 20, 20, 50, 50, 130, 130, -70, 2500, -2500, -9000]


def call(rng, tgt, at=0, fn='ensure', kind=None):
    return dict(at=at, fn=fn, tgt=tgt, kind=kind or rng.choice(
        ['coro', 'coro', 'task', 'fut', 'obj']), delay=rng.choice(DELAY),
        out=rng.choice(OUT))


def core(rng):
    """Everything at once on one loop."""
    out = []
    for lit in (None, [0, 'end'], [20, 'end'], [0, 20], [0, 0]):
        for d1 in (0, 50):
            for d2 in (0, 20):
                for k in (('coro', 'coro'), ('coro', 'task'),
                          ('task', 'fut')):
                    for at in (0, d1):
                        a = dict(at=0, fn='ensure', tgt=1, kind=k[0],
                                 delay=d1, out='val')
                        b = dict(at=at, fn='ensure', tgt=1, kind=k[1],
                                 delay=d2, out='e1')
                        out.append(dict(loops=[dict(lit=lit)], callers=[
                            dict(par=False, calls=[a]),
                            dict(par=False, calls=[b])]))
    # stopped while busy
    for d in (-300, -1500, -9000, -40000):
        for k in ('coro', 'task', 'fut'):
            for at in (0, 20):
                a = dict(at=0, fn='ensure', tgt=1, kind='coro', delay=d,
                         out='val')
                b = dict(at=at, fn='ensure', tgt=1, kind=k, delay=20,
                         out='e1')
                for stop in (20, 130):
                    out.append(dict(
                        loops=[dict(lit=[0, stop])], first=True, callers=[
                            dict(par=False, calls=[a]),
                            dict(par=False, calls=[b])]))
    return out


def slow(rng):
    """It takes minutes."""
    out = []
    for d in (11000, 45000, 400000):
        for lit in (None, [0, 'end']):
            for kind in ('coro', 'task', 'fut', 'obj'):
                for fn in ('ensure', 'run')[:2 if lit else 1]:
                    a = dict(at=0, fn=fn, tgt=1, kind=kind, delay=d,
                             out='val')
                    b = dict(at=rng.choice([0, 20]), fn=fn, tgt=1,
                             kind='coro', delay=rng.choice([50, d, 2 * d]),
                             out='e1')
                    out.append(dict(loops=[dict(lit=lit)], first=True,
                                    callers=[dict(par=False, calls=[a]),
                                             dict(par=False, calls=[b])]))
            # loop_in_thread gets its turn after minutes
            b = dict(at=0, fn='ensure', tgt=1, kind=rng.choice(
                ['coro', 'task', 'fut']), delay=d, out='val')
            c = dict(b, at=d + 1000, kind='coro', delay=20)
            out.append(dict(loops=[dict(lit=[20, 'end'])], callers=[
                dict(par=False, calls=[b, c])]))
    # a crowd
    for lit in (None, None, [0, 'end']):
        for par in (True, False):
            out.append(dict(loops=[dict(lit=lit)], callers=[
                dict(par=par, calls=[call(rng, 1, 10 * i + j)
                                     for j in range(8)])
                for i in range(3)]))
            # each ends when the next ones are waited for
            out.append(dict(loops=[dict(lit=lit)], callers=[
                dict(par=True, calls=[dict(
                    at=3 * j + i, fn='ensure', tgt=1, kind='coro',
                    delay=50 * (2 * j + i + 1), out='val')
                    for j in range(10)]) for i in range(2)]))
    return out


def program(rng):
    nl = rng.choice([1, 1, 1, 2])
    loops = []
    for _ in range(nl):
        r = rng.random()
        if r < .45:
            loops.append({})
        elif r < .9:
            loops.append(dict(lit=[rng.choice([0, 0, 20, 70]), rng.choice(
                ['end', 'end', 0, 50, 130])]))
        else:
            loops.append(dict(closed=True))
            if rng.random() < .5:
                loops[-1]['lit'] = [rng.choice([0, 20]), 'end']
    first = rng.random() < .3
    callers = []
    nc = rng.choice([2, 2, 3])
    for n in range(nc):
        calls = []
        t = 0
        for _ in range(rng.choice([1, 1, 2])):
            t += rng.choice([0, 0, 20, 50, 70])
            r = rng.random()
            if r < .1:
                tgt = -(n + 1)
            elif r < .25:
                tgt = -rng.randint(1, nc)
            else:
                tgt = rng.randint(1, nl)
            c = call(rng, tgt, t)
            if tgt > 0 and loops[tgt - 1].get('closed'):
                c['kind'] = rng.choice(['coro', 'obj'])
            if tgt > 0 and rng.random() < .2 and (
                    loops[tgt - 1].get('closed') or first
                    and (loops[tgt - 1].get('lit') or [0, 0])[1] == 'end'):
                c['fn'] = 'run'
            if tgt < 0:
                if rng.random() < .3:
                    c['fn'] = 'run'
                # another caller's loop may not have been started yet:
                # that is not for these helpers to borrow
                if tgt != -(n + 1):
                    c['at'] += 200
                    t = c['at']
            calls.append(c)
        callers.append(dict(par=rng.random() < .4, calls=calls))
    return dict(loops=loops, callers=callers, first=first)


def check(ctx):
    for c in ctx.pick(['A', 'B'], ['A', 'B', 'C']):
        ctx.check_design('CrossLoop', 'CrossLoop' + c)
    if ctx.thorough:
        for c in ['X1', 'X2', 'X3', 'X4']:
            ctx.refute_design('CrossLoop', 'CrossLoop' + c)
    rng = ctx.rng
    c = core(rng)
    rng.shuffle(c)
    kw = dict(single=ctx.pick(40, 400), random=ctx.pick(20, 100),
              double=ctx.pick(10, 200))
    progs = slow(rng) + c[:ctx.pick(60, 10 ** 6)] + [program(rng) for _ in
                                         range(ctx.pick(120, 2000))]
    jobs = [dict(kw, progs=[p], seed=rng.randrange(10 ** 9)) for p in progs]
    o = ctx.execute('cross', jobs, deadline=ctx.pick(120, 500))
    ctx.validate('CrossTrace', 'cross', jobs, o, CLAUSES, chunk=800)
