from . import batcherprogs as P

CLAUSES = {'outcome', 'hangs', 'badkey', 'stale'}


def check(ctx):
    P.run(ctx, 'C04', CLAUSES, ctx.pick(15000, 200000))
