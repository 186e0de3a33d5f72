"""Buffer wait() is a barrier and returns; shutdown terminates."""
from . import C03

CLAUSES = {'C07.barrier', 'C07.wait_hangs', 'C07.shutdown_hangs'}


def check(ctx):
    C03.run(ctx, CLAUSES, ['mixed', 'tie', 'mixed', 'shut'], 'wait')
