"""worker.py component repo jobs out deadline: executes harness jobs."""
import sys
import os
import json
import time
import gc

_real_time = time.time       # before detsim virtualises it
_t0 = _real_time()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    comp, repo, jobs_f, out_f, deadline = sys.argv[1:6]
    deadline = float(deadline)
    import importlib
    mod = importlib.import_module('harness.' + comp)
    mod.setup(repo)
    if getattr(mod, 'NOGC', True):
        gc.disable()
    with open(jobs_f) as f:
        jobs = json.load(f)
    out = open(out_f, 'wb', buffering=0)

    def emit(**kw):
        out.write(json.dumps(kw, separators=(',', ':')).encode() + b'\n')
    seen = set()
    nalive = [_real_time()]
    for i, job in jobs:
        if _real_time() - _t0 > deadline:
            emit(_='skip', job=i)
            continue
        emit(_='start', job=i)
        runs = 0
        for res in mod.run_job(job):
            runs += res.pop('runs', 1)
            now = _real_time()
            if now - nalive[0] > 2:
                nalive[0] = now
                emit(_='alive')
            if res.get('skip'):
                continue
            key = json.dumps(res['trace'], sort_keys=True,
                             separators=(',', ':'))
            h = hash(key)
            if h in seen:
                continue
            seen.add(h)
            emit(_='res', job=i, **res)
            if now - _t0 > deadline:
                break
        emit(_='end', job=i, runs=runs)
        if runs:
            gc.collect(1)
    out.close()
    sys.stdout.flush()
    os._exit(0)


main()
