from . import batcherprogs as P

CLAUSES = {'outcome', 'hangs', 'stale', 'recompute', 'badkey'}


def check(ctx):
    P.run(ctx, 'C09', CLAUSES, ctx.pick(15000, 200000))
