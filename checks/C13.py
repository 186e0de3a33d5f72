"""A process killed at every line event leaves the lock usable."""
from . import lockprogs as L

LEVEL = 'model_checking'
CLAUSES = {'exclusion', 'stuck', 'false_though_free'}
USES = ['bl', 'wi', 'ts', 'nb', 'cx', 'nest', 'nestw', 'force', 'twice']
CONT = [[], ['bl'], ['bl', 'bl'], ['bl', 'tl'], ['tl']]


def check(ctx):
    L.designs(ctx, 'B', 'CF')
    jobs = []
    for u in USES:
        for c in ([[], ['bl'], ['bl', 'tl']] if not ctx.thorough else CONT):
            # line events: all without contenders, every 2nd with (quick)
            step = 4
            firsts = range(1, 5) if (not c or ctx.thorough) else \
                ctx.rng.sample(range(1, 5), 2)
            for f in firsts:
                jobs.append(dict(kind='crash', use=u, contenders=c, first=f,
                                 step=step, seed=ctx.rng.randrange(10 ** 6)))
    for i in range(ctx.pick(24, 200)):
        ats = [dict(delay=ctx.rng.random() * 0.02, repeat=50,
                    seed=ctx.rng.randrange(10 ** 6)) for _ in range(4)]
        jobs.append(dict(kind='crash', use=ctx.rng.choice(USES),
                         contenders=ctx.rng.choice(CONT), ats=ats, seed=0))
    jobs.append(dict(kind='crash', use='bl', contenders=[], seed=0,
                     ats=[dict(child=True), dict(child=True, seed=1)]))
    jobs.append(dict(kind='crash', use='bl', contenders=['bl'], seed=0,
                     ats=[dict(child=True)]))
    ctx.rng.shuffle(jobs)
    o = ctx.execute('lockproc', jobs)
    ctx.validate('LockTrace', 'lockproc', jobs, o, CLAUSES, chunk=400)
    L.forks(ctx, CLAUSES, lambda ops: 'kill' in ops)
