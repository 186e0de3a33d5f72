"""Programs and schedules for the FileLock checks."""
ACQ = ['bl', 'bl', 'wi', 'cb', 'bn', 'nb', 'ts', 't0', 'tp', 'tq', 'tf', 'cx', 'cn']


def conc_program(rng, nthreads, rounds):
    re = [rng.random() < .5, rng.random() < .5]
    nobj = rng.choice([1, 1, 2])
    th = []
    for i in range(nthreads):
        rs = []
        for _ in range(rng.randint(1, rounds)):
            if rng.random() < .2:
                rs.append(['sl', 0, rng.choice([10, 50, 120]), None])
            rs.append([rng.choice(ACQ), rng.randint(1, nobj),
                       rng.choice([0, 0, 0, 30, 250, 450]),
                       rng.choice([None, None, 'bl', 'nb', 'ts', 'wi'])])
        th.append(rs)
    return dict(re=re, threads=th, force=rng.random() < .3,
                deft=[rng.choice([-1, -1, -1, 0, 200]) for _ in range(2)])


def core_programs():
    """Small programs for which every single preemption is tried."""
    out = []
    for re in (False, True):
        for nobj in (1, 2):
            for a in ('bl', 'nb', 'ts', 'cx'):
                for b in ('bl', 'wi', 'nb', 'ts'):
                    nest = 'bl' if re else None
                    out.append(dict(re=[re, re], force=False, threads=[
                        [[a, 1, 0, nest]], [[b, nobj, 0, None]]]))
                    out.append(dict(re=[re, re], force=re, threads=[
                        [[a, 1, 30, nest], ['bl', 1, 0, None]],
                        [[b, nobj, 0, nest]]]))
            for b in ('bl', 'wi', 'cb'):        # with a default timeout
                for d in (0, 200):
                    out.append(dict(re=[re, re], force=False, deft=[d, d],
                                    threads=[
                        [['bn', 1, 450, None]], [[b, nobj, 0, None]]]))
    return out


def slow_jobs(rng):
    """Held for more than ten minutes."""
    out = []
    for b in ('bl', 'wi', 'cb', 'bn'):
        for nobj in (1, 2):
            re = rng.random() < .5
            out.append(dict(
                kind='conc', seed=rng.randrange(10 ** 9), random=0,
                max_single=1, prog=dict(
                    re=[re, re], force=False, slow=True, threads=[
                        [[rng.choice(['bl', 'nb', 'wi']), 1, 700000, None]],
                        [['sl', 0, 10, None], [b, nobj, 0, None]]])))
    return out


def conc_jobs(rng, core, random_programs, rnd, max_single=400, double=0):
    jobs = [dict(kind='conc', prog=p, seed=rng.randrange(10 ** 9),
                 random=rnd, max_single=max_single, double=double)
            for p in core]
    for i in range(random_programs):
        n = rng.choice([2, 2, 3, 3, 4])
        jobs.append(dict(kind='conc', prog=conc_program(rng, n, 3 if n < 4
                                                         else 2),
                         seed=rng.randrange(10 ** 9), random=rnd,
                         max_single=max_single // 4, double=double))
    return jobs


def stress_jobs(rng, n, rounds):
    jobs = []
    shapes = [
        [([False], [1])] * 16, [([False], [1, 1])] * 6,
        [([True], [1, 1])] * 4, [([False, True], [1, 2, 2])] * 3,
        [([False, False], [1, 2])] * 5, [([True], [1])] * 8,
    ]
    for i in range(n):
        sh = shapes[i % len(shapes)]
        jobs.append(dict(kind='stress', seed=rng.randrange(10 ** 9),
                         procs=sh, rounds=rounds, prefork=i % 4 == 3,
                         styles=[['bl', 'wi', 'cb'],
                                 ['bl', 'nb', 'ts', 'wi', 'cn'],
                                 ['nb', 'ts']][i % 3],
                         hold=[0.0005, 0, 0.002][i % 3],
                         gap=[0.0, 0.001][i % 2]))
    return jobs


def designs(ctx, names, thorough=()):
    for c in list(names) + (list(thorough) if ctx.thorough else []):
        ctx.check_design('FileLock', 'FileLock' + c)


def deep(ctx, mine, soft=False):
    """Nested up to about 40 times."""
    cases = ctx.walks('LockSeq', ctx.pick(40, 400), 80,
                      env=dict(DEPTH='80', OPS='deep'))
    ctx.detail['deep_depth80'] = len(cases)
    jobs = [dict(cases=cases[i:i + 50], soft=soft) for i in range(0, len(cases), 50)]
    o = ctx.execute('lockseq', jobs)
    for r in o.results:
        if mine(r['clause']):
            ctx.violation(r['clause'], 'lockseq', jobs[r['job']],
                          r['trace'], r)
    ctx.traces += o.runs


def forks(ctx, clauses, want=lambda ops: True):
    """Fork.tla histories with real processes."""
    cases = ctx.generate('Fork', env=dict(DEPTH='5'))
    walks = ctx.walks('Fork', ctx.pick(6000, 60000), 9, env=dict(DEPTH='9'))
    cases = [c for c in cases + walks
             if want([s['op'] for s in c['hist']])]
    ctx.detail['fork_histories'] = len(cases)
    # those in which something is held at the fork first
    ctx.rng.shuffle(cases)
    cases.sort(key=lambda c: not any(
        s['op'] == 'fork' and s['held'] for s in c['hist']))
    n = ctx.pick(1500, 40000)
    cases = cases[:n * 3 // 4] + cases[n * 3 // 4:][-n // 4:]
    jobs = [dict(cases=cases[i:i + 40], seed=i)
            for i in range(0, len(cases), 40)]
    o = ctx.execute('lockfork', jobs, deadline=ctx.pick(100, 300))
    for r in o.results:
        if r['clause'] in clauses:
            ctx.violation(r['clause'], 'lockfork', jobs[r['job']],
                          r['trace'], r)
    ctx.traces += o.runs
    if ctx.thorough:
        for x in '123':
            ctx.refute_design('Fork', 'ForkX' + x, env=dict(DEPTH='6'))
