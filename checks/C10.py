from . import batcherprogs as P

CLAUSES = {'empty', 'size', 'conc', 'fifo', 'share', 'late'}


def check(ctx):
    P.run(ctx, 'C10', CLAUSES, ctx.pick(15000, 200000))
