#!/usr/bin/env python3
"""fastcheck.py Cxx...: only the code side of some checks, any clause counts.

For trying a mutant of the code (VERIF_REPO=...); not registered anywhere.
Exit 1 as soon as one of the checks reports something."""
import importlib
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'bin')]
sys.dont_write_bytecode = True
import check    # noqa: E402


class Ctx(check.Ctx):
    def check_design(self, *a, **k):
        if sys._getframe(1).f_code.co_name == 'generate':
            return super().check_design(*a, **k)

    def refute_design(self, *a, **k):
        pass

    def mine(self, clause, clauses):
        return True

    def violation(self, clause, component, job, trace, res):
        self.violations.append(clause)


for pid in sys.argv[1:]:
    t0 = time.time()
    ctx = Ctx(pid, 'quick', 1)
    importlib.import_module('checks.' + pid).check(ctx)
    hist = {}
    for c in ctx.violations:
        hist[c] = hist.get(c, 0) + 1
    print(pid, f'{time.time() - t0:.0f}s', hist or 'quiet', flush=True)
    if hist:
        sys.exit(1)
