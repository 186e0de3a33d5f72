"""FileLock contract: sequential histories from LockSeq.tla replayed with the
prescribed results, OS faults injected at every call, and interleavings."""
from . import lockprogs as L

CLAUSES = {'true_not_held', 'raised', 'false_though_free', 'blocking_gave_up',
           'gave_up_early', 'nonblocking_waited', 'timeout_exceeded',
           'release_raised', 'release_waited', 'is_locked', 'descriptors',
           'stuck'}
MAP = {'df': 'bl', 'xit': 'rel', 'xitx': 'rel'}


def check(ctx):
    L.designs(ctx, 'E', 'D')
    full = ctx.generate('LockSeq', env=dict(DEPTH='3', OPS='full'))
    core = ctx.generate('LockSeq', env=dict(DEPTH='4', OPS='core'))
    walks = ctx.walks('LockSeq', ctx.pick(1500, 20000), 8,
                      env=dict(DEPTH='8', OPS='full'))
    ctx.detail.update(full_depth3=len(full), core_depth4=len(core),
                      walks_depth8=len(walks))
    L.deep(ctx, lambda c: True)
    if ctx.thorough:
        mini = ctx.generate('LockSeq', env=dict(DEPTH='7', OPS='mini'))
        ctx.detail['mini_depth7'] = len(mini)
        ctx.replay_cases('lockseq', mini, per_job=2000)
    ctx.rng.shuffle(full)
    ctx.replay_cases('lockseq', walks + full[:ctx.pick(15000, 10**6)],
                     per_job=1000)
    ctx.rng.shuffle(core)
    ctx.replay_cases('lockseq', core[:ctx.pick(20000, 10**6)], per_job=1000)

    # the OS fails once or twice in a history
    base = []
    for c in core[:ctx.pick(250, 4000)] + full[:ctx.pick(150, 4000)] \
            + walks[:ctx.pick(80, 2000)]:
        base.append(dict(re=c['re'], deft=[c['deft']] * 2, hist=[
            [s['t'], MAP.get(s['op'], s['op']), s['o']] for s in c['hist']]))
    jobs = [dict(kind='seq', cases=base[i:i + 12], double=ctx.pick(15, 60),
                 seed=ctx.rng.randrange(10 ** 9))
            for i in range(0, len(base), 12)]
    o = ctx.execute('locks', jobs)
    ctx.validate('LockTrace', 'locks', jobs, o, CLAUSES, chunk=800)

    cp = L.core_programs()
    ctx.rng.shuffle(cp)
    jobs = L.conc_jobs(ctx.rng, cp[:ctx.pick(16, 100)], ctx.pick(30, 400),
                       ctx.pick(30, 100), ctx.pick(200, 1000))
    jobs = L.slow_jobs(ctx.rng) + jobs
    o = ctx.execute('locks', jobs, deadline=ctx.pick(100, 300))
    ctx.validate('LockTrace', 'locks', jobs, o, CLAUSES, chunk=600)
    L.forks(ctx, CLAUSES)
