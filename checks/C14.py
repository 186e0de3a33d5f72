"""Cache keys: call/evict histories generated by Keys.tla; evictions while
others use the cache, judged by CacheTrace.tla."""
from . import cacheprogs


def check(ctx):
    pairs = ctx.generate('Keys', env=dict(DEPTH='2', UNIVERSE='big'))
    small = ctx.generate('Keys', env=dict(DEPTH='3', UNIVERSE='small'))
    deep = ctx.generate('Keys', env=dict(DEPTH='4', UNIVERSE='small'))
    walks = ctx.walks('Keys', ctx.pick(200, 2000), 60,
                      env=dict(DEPTH='60', UNIVERSE='full'))
    walks += ctx.walks('Keys', ctx.pick(20, 200), 400,
                       env=dict(DEPTH='400', UNIVERSE='full'))
    ctx.detail.update(walks=len(walks), pairs=len(pairs), histories3=len(small),
                      histories4=len(deep))
    vs = list(range(840))
    ctx.rng.shuffle(vs)
    # every class assignment for every pair of signatures
    ctx.replay_cases('keys', pairs, vars=list(range(24 * ctx.pick(1, 5))),
                     per_job=200)
    ctx.replay_cases('keys', small, vars=vs, rot=ctx.pick(3, 30),
                     per_job=200)
    ctx.replay_cases('keys', walks, vars=vs, rot=ctx.pick(10, 60),
                     per_job=10)
    ctx.check_design('Cache', 'CacheE')
    jobs = cacheprogs.evictions(ctx.rng, ctx.pick(60, 1000),
                                ctx.pick(60, 400), ctx.pick(20, 100))
    o = ctx.execute('cache', jobs, deadline=ctx.pick(60, 200))
    ctx.validate('CacheTrace', 'cache', jobs, o,
                 {'C01.single', 'C01.recompute', 'C01.value', 'C06.origin'},
                 chunk=800)
    ctx.rng.shuffle(deep)
    ctx.replay_cases('keys', deep[:ctx.pick(15000, 10 ** 6)], vars=vs,
                     rot=ctx.pick(1, 5), per_job=400)
