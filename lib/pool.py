"""Worker processes which execute harness jobs against the real code."""
import json
import os
import subprocess
import tempfile
import time

from . import tlc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


class Outcome:
    def __init__(self):
        self.results = []      # dicts written by the workers
        self.runs = 0          # executions of the real code
        self.jobs_done = 0
        self.broken = []       # (job, reason): no answer, twice
        self.skipped = 0


def run_jobs(component, jobs, nproc=8, deadline=400, quiet=90, env=None):
    """Execute jobs with harness/<component>.py, return an Outcome."""
    out = Outcome()
    if not jobs:
        return out
    d = tempfile.mkdtemp(prefix='pool-', dir=tlc.scratch())
    nproc = min(nproc, len(jobs))
    slices = [list(range(len(jobs)))[k::nproc] for k in range(nproc)]
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = '0'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e.update(env or {})
    t0 = time.time()

    class W:
        pass
    ws = []

    def start(w):
        w.gen += 1
        w.file = os.path.join(d, f'{w.k}-{w.gen}')
        with open(w.file + '.jobs', 'w') as f:
            json.dump([[i, jobs[i]] for i in w.todo], f)
        w.err = open(w.file + '.err', 'wb')
        w.p = subprocess.Popen(
            [PY, '-X', 'faulthandler', os.path.join(HERE, 'lib', 'worker.py'),
             component, REPO, w.file + '.jobs', w.file + '.out',
             str(max(5.0, deadline - (time.time() - t0)))],
            env=e, stdout=w.err, stderr=w.err, cwd='/')
        w.pos = 0
        w.last = time.time()
        w.cur = None
        w.buf = b''

    def drain(w):
        try:
            with open(w.file + '.out', 'rb') as f:
                f.seek(w.pos)
                data = f.read()
        except FileNotFoundError:
            return
        if not data:
            return
        w.pos += len(data)
        w.last = time.time()
        w.buf += data
        *lines, w.buf = w.buf.split(b'\n')
        for line in lines:
            r = json.loads(line)
            k = r.pop('_')
            if k == 'start':
                w.cur = r['job']
            elif k == 'end':
                w.todo.remove(r['job'])
                w.cur = None
                out.jobs_done += 1
                out.runs += r['runs']
            elif k == 'skip':
                out.skipped += 1
                w.todo.remove(r['job'])
            elif k == 'res':
                out.results.append(r)
            elif k == 'alive':
                pass

    for k in range(nproc):
        w = W()
        w.k, w.gen, w.todo, w.fails = k, 0, list(slices[k]), {}
        start(w)
        ws.append(w)
    live = list(ws)
    while live:
        time.sleep(0.02)
        for w in list(live):
            drain(w)
            rc = w.p.poll()
            why = None
            if rc is None and time.time() - w.last > quiet:
                w.p.kill()
                w.p.wait()
                why = 'no progress'
            elif rc is not None:
                drain(w)
                if not w.todo:
                    live.remove(w)
                    continue
                why = f'worker exit {rc}'
            if why is None:
                continue
            drain(w)
            w.err.close()
            if w.cur is None:
                with open(w.file + '.err', 'rb') as f:
                    raise RuntimeError(
                        f'{component}: {why}\n'
                        + f.read().decode('utf8', 'replace')[-4000:])
            n = w.fails.get(w.cur, 0) + 1
            w.fails[w.cur] = n
            if n >= 2:
                with open(w.file + '.err', 'rb') as f:
                    why += '\n' + f.read().decode('utf8', 'replace')[-4000:]
                out.broken.append((w.cur, why))
                w.todo.remove(w.cur)
            else:                      # retry it first
                w.todo.remove(w.cur)
                w.todo.insert(0, w.cur)
            if w.todo:
                start(w)
            else:
                live.remove(w)
    return out
