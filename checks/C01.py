"""threadsafe_async_cache is single-flight."""
from . import cacheprogs as P

CLAUSES = {'C01.single', 'C01.recompute', 'C01.value'}
SPLIT = dict(core=(80, 1500), n=(220, 4000), single=(60, 400),
             rnd=(40, 150), double=(0, 200), gc=(3, 10))


def run(ctx, clauses):
    for c in ['L', 'A', 'B', 'E'] + (['M', 'C', 'D', 'F'] if ctx.thorough else []):
        ctx.check_design('Cache', 'Cache' + c)
    kw = {k: ctx.pick(*v) for k, v in SPLIT.items()}
    jobs = P.jobs(ctx.rng, kw['core'], kw['n'], kw['single'], kw['rnd'],
                  kw['double'], kw['gc'])
    o = ctx.execute('cache', jobs, deadline=ctx.pick(120, 500))
    ctx.validate('CacheTrace', 'cache', jobs, o, clauses, chunk=800)


def check(ctx):
    run(ctx, CLAUSES)
