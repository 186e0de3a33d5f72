"""split/exhaust: histories generated by Split.tla, replayed on the code."""


def check(ctx):
    cases = ctx.generate('Split', env=dict(
        MAXN=ctx.pick('4', '5'), EXTRA=ctx.pick('1', '2'), EMIT='1'))
    cases += ctx.generate('Split', env=dict(MAXN='3', EXTRA='3', EMIT='1'))
    # longer ones, at random
    cases += ctx.walks('Split', ctx.pick(4000, 40000), 18, env=dict(
        MAXN='7', EXTRA='3', EMIT='1'))
    ctx.detail['cases'] = len(cases)
    ctx.replay_cases('split', cases, vars=list(range(48)), per_job=500)
