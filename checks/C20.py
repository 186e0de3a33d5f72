"""gather_excs: outcomes x finishing orders x filters from Gather.tla."""


def check(ctx):
    cases = ctx.generate('Gather', env=dict(N=ctx.pick('3', '4')))
    ctx.detail['cases'] = len(cases)
    if ctx.thorough:
        small = [c for c in cases if len(c['plan']) < 4]
        ctx.replay_cases('gather', small, vars=list(range(24)), per_job=50)
        cases = [c for c in cases if len(c['plan']) == 4]
        ctx.rng.shuffle(cases)
        ctx.replay_cases('gather', cases[:12000], per_job=50,
                         vars=[ctx.rng.randrange(60) for _ in range(2)])
    else:
        ctx.replay_cases('gather', cases, vars=[0, 3, 4, 5], per_job=50)
    many = ctx.walks('GatherWalk', ctx.pick(200, 3000), 220,
                     env=dict(N='3', SIZE='few'))
    many += ctx.walks('GatherWalk', ctx.pick(4, 40), 920,
                      env=dict(N='3', SIZE='big'))
    ctx.detail['many'] = len(many)
    ctx.replay_cases('gather', many, vars=[0, 3, 4, 5], per_job=10)
