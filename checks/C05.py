"""Cached calls terminate, promptly."""
from . import C01


def check(ctx):
    C01.run(ctx, {'C05.hang', 'C05.late', 'C05.recover'})
