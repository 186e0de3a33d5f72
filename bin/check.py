#!/usr/bin/env python3
"""check.py <Cxx>: decide one property of /repo's working tree."""
import importlib
import json
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from lib import tlc, pool   # noqa: E402

KNOWN = os.path.join(HERE, 'known_findings.txt')

LEVELS = {}


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.rng = random.Random(f'{pid}/{seed}')
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.runs = 0
        self.design = []
        self.samples = []
        self.notes = []
        self.violations = []
        self.assumptions = []
        self.detail = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- spec side ---------------------------------------------------------
    def check_design(self, module, cfg=None, env=None, workers=8,
                     timeout=800, heap='8g', extra=()):
        """Model-check a design; it must hold (it does not depend on /repo)"""
        r = tlc.run(module, cfg, env, workers=workers, timeout=timeout,
                    heap=heap, extra=extra)
        if not r.ok:
            raise tlc.TlcError(f'{module}/{cfg}: exit {r.rc}\n{r.tail(80)}')
        self.states += r.distinct
        self.transitions += r.generated
        self.design.append(dict(module=module, cfg=cfg or module,
                                env=env or {}, distinct_states=r.distinct,
                                generated=r.generated, depth=r.depth,
                                wall_s=round(r.wall, 1)))
        return r

    def refute_design(self, module, cfg, env=None, **kw):
        """A faulty variant of a design must violate its properties."""
        r = tlc.run(module, cfg, env or {}, timeout=800, heap='8g', **kw)
        if r.rc not in (12, 13):
            raise tlc.TlcError(f'{module}/{cfg}: not refuted: exit {r.rc}\n'
                               + r.tail(80))
        self.design.append(dict(module=module, cfg=cfg, refuted=True,
                                wall_s=round(r.wall, 1)))
        return r

    def generate(self, module, cfg=None, env=None, workers=8, timeout=800,
                 extra=()):
        """Cases printed by a generating spec (JSON), in a fixed order."""
        r = self.check_design(module, cfg, env, workers, timeout,
                              extra=extra)
        lines = sorted({x for x in r.out.splitlines()
                        if x.startswith('"{')})
        return [json.loads(json.loads(x)) for x in lines]

    def walks(self, module, num, depth, cfg=None, env=None):
        """Cases printed along random walks of a generating spec."""
        r = tlc.run(module, cfg, env, workers=1, extra=(
            '-simulate', f'num={num}', '-depth', str(depth + 1),
            '-seed', str(self.rng.randrange(10 ** 9))))
        if r.rc:
            raise tlc.TlcError(f'{module}/{cfg}: exit {r.rc}\n{r.tail(80)}')
        lines = sorted({x for x in r.out.splitlines()
                        if x.startswith('"{')})
        return [json.loads(json.loads(x)) for x in lines]

    # -- code side ---------------------------------------------------------
    def execute(self, component, jobs, deadline=None, **kw):
        if deadline is None:
            deadline = self.pick(400, 800)
        o = pool.run_jobs(component, jobs, deadline=deadline, **kw)
        self.runs += o.runs
        if o.skipped:
            self.notes.append(f'{component}: {o.skipped} jobs skipped: '
                              'time budget')
        for j, why in o.broken:
            self.violation('no_answer', component, jobs[j],
                           {'why': why}, dict(sched=None))
        return o

    def replay_cases(self, component, cases, per_job=200, **job):
        """Each case carries its expected outcome; mismatches come back."""
        jobs = [dict(job, cases=cases[i:i + per_job])
                for i in range(0, len(cases), per_job)]
        o = self.execute(component, jobs)
        for r in o.results:
            self.violation(r['clause'], component, jobs[r['job']],
                           r['trace'], r)
        self.traces += o.runs
        for c in cases[:2]:
            self.samples.append(c)
        return o

    def validate(self, module, component, jobs, outcome, clauses=None,
                 env=None, chunk=250, cfg=None, kind=None):
        """Trace validation of everything (of a kind) the workers recorded"""
        seen = {}
        for r in outcome.results:
            if kind is not None and r['kind'] != kind:
                continue
            k = json.dumps(r['trace'], sort_keys=True, separators=(',', ':'))
            seen.setdefault(k, r)
        rs = [seen[k] for k in sorted(seen)]
        verdicts, tot = tlc.validate(module, [r['trace'] for r in rs],
                                     cfg=cfg, env=env, chunk=chunk)
        self.states += tot['distinct']
        self.transitions += tot['generated']
        self.traces += len(rs)
        others = {}
        for r, v in zip(rs, verdicts):
            names = [x for x in v.split(',') if x]
            mine = [x for x in names if self.mine(x, clauses)]
            for x in set(names) - set(mine):
                others[x] = others.get(x, 0) + 1
            if mine:
                self.violation(','.join(sorted(mine)), component,
                               jobs[r['job']], r['trace'], r)
        if others:
            self.notes.append('clauses of other properties violated: '
                              + json.dumps(others))
        good = [r['trace'] for r, v in zip(rs, verdicts) if not v]
        good.sort(key=lambda t: abs(len(t.get('ev', ())) - 25))
        self.samples += good[:2]
        return rs, verdicts

    def mine(self, clause, clauses):
        if clause == tlc.UNEXPLAINED:
            return True
        if clauses is not None:
            return clause.split('.')[-1] in clauses or clause in clauses
        return clause.startswith(self.pid + '.') or '.' not in clause

    def violation(self, clause, component, job, trace, res):
        d = os.path.join(HERE, 'work', 'replay')
        os.makedirs(d, exist_ok=True)
        n = len(self.violations) + 1
        path = os.path.join(d, f'{self.pid}-{n}.json')
        self.violations.append((clause, path))
        if n <= 50:
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, clause=clause,
                               component=component, job=job,
                               sched=res.get('sched'), trace=trace), f,
                          indent=1)


def main():
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2
            else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(pid, tier, seed)
    mod = importlib.import_module('checks.' + pid)
    mod.check(ctx)
    known = []
    with open(KNOWN) as f:
        for line in f:
            if line.startswith('finding: property=' + pid + ' '):
                known.append(line.strip())
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = dict(states=ctx.states, transitions=ctx.transitions,
               traces_validated_against_impl=ctx.traces,
               samples=ctx.samples[:4],
               design_checks=ctx.design, **ctx.detail)
    if ctx.runs != ctx.traces:     # before removing identical traces
        cov['executions'] = ctx.runs
    if ctx.notes:
        cov['notes'] = ctx.notes
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - ctx.t0, 1),
              violations=len(ctx.violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', pid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, tmp[:-4])
    for clause, path in ctx.violations[:10]:
        print(f'VIOLATION property={pid} replay={path} clause={clause}')
    if os.environ.get('VERIF_DEBUG') and ctx.violations:
        hist = {}
        for c, _ in ctx.violations:
            hist[c] = hist.get(c, 0) + 1
        print(len(ctx.violations), 'violations', hist)
    print(f'{pid} {tier}: {ctx.traces} traces/cases validated, {ctx.runs} '
          f'executions, {ctx.states} spec states, '
          f'{time.time() - ctx.t0:.1f}s'
          + ('; ' + '; '.join(ctx.notes) if ctx.notes else ''))
    sys.stdout.flush()
    return 1 if ctx.violations else 0


if __name__ == '__main__':
    sys.exit(main())
