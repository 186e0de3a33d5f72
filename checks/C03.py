"""Buffered arguments are delivered, each in a successful call."""
from . import bufferprogs as P

CLAUSES = {'C03.never_submitted', 'C03.delivered_twice', 'C03.lost'}


def run(ctx, clauses, kinds, fkind):
    P.designs(ctx)
    kw = dict(singles=ctx.pick(10000, 120000), kinds=kinds,
              ncore=ctx.pick(42, 42), core_single=ctx.pick(400, 2000),
              nforeign=ctx.pick(120, 1500), fsingle=ctx.pick(25, 60),
              rnd=ctx.pick(20, 60), double=ctx.pick(0, 200), fkind=fkind)
    jobs = P.jobs(ctx.rng, **kw)
    o = ctx.execute('buffer', jobs, deadline=ctx.pick(120, 450))
    ctx.validate('BufferTrace', 'buffer', jobs, o, clauses, chunk=800)


def check(ctx):
    run(ctx, CLAUSES, ['mixed', 'mixed', 'pure', 'tie'], 'mixed')
