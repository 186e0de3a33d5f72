"""FileLock mutual exclusion: interleavings and real processes."""
from . import lockprogs as L

ASSUMPTIONS = [
    'The kernel implements flock as specified; in the interleaving runs its '
    'blocking form is simulated by retrying the real non-blocking call.',
]
CLAUSES = {'exclusion'}


def check(ctx):
    L.designs(ctx, 'ABE', 'CDF')
    jobs = L.conc_jobs(ctx.rng, L.core_programs(), ctx.pick(60, 1500),
                       ctx.pick(60, 200), ctx.pick(400, 2000),
                       double=ctx.pick(0, 300))
    ctx.rng.shuffle(jobs)
    o = ctx.execute('locks', jobs, deadline=ctx.pick(120, 500))
    ctx.validate('LockTrace', 'locks', jobs, o, CLAUSES, chunk=600)
    jobs = L.stress_jobs(ctx.rng, ctx.pick(12, 120), ctx.pick(25, 60))
    o = ctx.execute('lockproc', jobs, nproc=3)
    ctx.validate('LockTrace', 'lockproc', jobs, o, CLAUSES, chunk=4)
    L.deep(ctx, lambda c: c == 'C12.true_not_held', True)
    L.forks(ctx, CLAUSES)
