from . import batcherprogs as P

CLAUSES = {'dup', 'recompute', 'stale', 'outcome'}


def check(ctx):
    P.run(ctx, 'C11', CLAUSES, ctx.pick(15000, 200000))
