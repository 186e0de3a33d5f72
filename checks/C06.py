"""Cache callers see only their own outcome."""
from . import C01


def check(ctx):
    C01.run(ctx, {'C06.origin', 'C06.own_cancel', 'C06.delayed'})
