"""The buffer debounces."""
from . import C03

CLAUSES = {'C08.overlap', 'C08.empty', 'C08.early', 'C08.not_together',
           'C08.late'}


def check(ctx):
    C03.run(ctx, CLAUSES, ['pure', 'pure', 'mixed'], 'pure')
