"""Running TLC and reading its verdicts."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


class TlcError(Exception):
    pass


class Result:
    def __init__(self, rc, out, wall):
        self.rc = rc
        self.out = out
        self.wall = wall
        m = None
        for m in re.finditer(r'(\d+) states generated, (\d+) distinct', out):
            pass
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r'depth of the complete state graph search is (\d+)',
                      out)
        self.depth = int(m.group(1)) if m else 0

    @property
    def ok(self):
        return self.rc == 0

    def verdicts(self):
        """<<"V", tid, "clauses">> lines printed by a trace spec."""
        return [(int(a), b) for a, b in
                re.findall(r'<<"V", (\d+), "([^"]*)">>', self.out)]

    def tail(self, n=60):
        return '\n'.join(self.out.splitlines()[-n:])


def run(module, cfg=None, env=None, workers=1, timeout=600, extra=(),
        heap='3g', fast=False):
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + meta]
    cmd += (['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1'] if fast else
            ['-XX:+UseParallelGC', '-XX:ParallelGCThreads=2'])
    cmd += ['-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta,
            '-workers', str(workers), '-config',
            (cfg or module) + '.cfg', *extra, module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return Result(p.returncode, p.stdout.decode('utf8', 'replace'),
                      time.time() - t0)
    except subprocess.TimeoutExpired as ex:
        return Result(-1, (ex.stdout or b'').decode('utf8', 'replace')
                      + '\nTIMEOUT', time.time() - t0)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        import atexit
        _scratch = tempfile.mkdtemp(prefix='aiuti-verif-')
        atexit.register(shutil.rmtree, _scratch, ignore_errors=True)
    return _scratch


def validate(module, traces, cfg=None, env=None, chunk=250, par=7,
             timeout=600):
    """Validate traces (JSON-able) with a trace spec.

    The spec prints one <<"V", i, "clause,clause">> line per explored way of
    explaining trace i (1-based in its chunk); a trace is accepted iff one
    of them names no clause.  Returns (list of clause strings ('' = ok),
    Result totals)."""
    if not traces:
        return [], dict(generated=0, distinct=0, wall=0.0)
    # balance chunks by total length
    n = max(1, min((len(traces) + chunk - 1) // chunk, 400))
    if n < par and len(traces) > 40:
        n = min(par, len(traces) // 20)
    order = sorted(range(len(traces)),
                   key=lambda i: -len(traces[i].get('ev', ())))
    chunks = [order[k::n] for k in range(n)]
    files = []
    for k, idx in enumerate(chunks):
        path = os.path.join(scratch(), f'{module}-{os.getpid()}-{k}-'
                            f'{time.monotonic_ns()}.json')
        with open(path, 'w') as f:
            json.dump([traces[i] for i in idx], f)
        files.append(path)

    def one(k):
        e = dict(env or {})
        e['TRACE_FILE'] = files[k]
        r = run(module, cfg, e, workers=1, timeout=timeout)
        os.unlink(files[k])
        return r
    with ThreadPoolExecutor(par) as ex:
        res = list(ex.map(one, range(n)))
    out = [None] * len(traces)
    tot = dict(generated=0, distinct=0, wall=0.0)
    for k, r in enumerate(res):
        if r.rc != 0:
            if 'The error occurred when TLC was evaluating' not in r.out:
                raise TlcError(f'{module}: TLC exit {r.rc}\n' + r.tail())
            # events the contract has no meaning for: find the trace
            v = _isolate(module, [traces[i] for i in chunks[k]], cfg, env,
                         timeout)
            for i, x in zip(chunks[k], v):
                out[i] = x
            continue
        tot['generated'] += r.generated
        tot['distinct'] += r.distinct
        tot['wall'] += r.wall
        for tid, bad in r.verdicts():
            i = chunks[k][tid - 1]
            if out[i] is None or (out[i] and
                                  (not bad or len(bad) < len(out[i]))):
                out[i] = bad
    for i, v in enumerate(out):
        if v is None:          # no behaviour of the spec explains it
            out[i] = UNEXPLAINED
    return out, tot


UNEXPLAINED = 'unexplained'


def _isolate(module, traces, cfg, env, timeout):
    """Verdicts of traces some of which TLC cannot evaluate; only the first
    of those is looked for."""
    if len(traces) == 1:
        return [UNEXPLAINED]
    h = len(traces) // 2
    out = []
    for part in (traces[:h], traces[h:]):
        path = os.path.join(scratch(), f'{module}-{os.getpid()}-iso-'
                            f'{time.monotonic_ns()}.json')
        with open(path, 'w') as f:
            json.dump(part, f)
        r = run(module, cfg, dict(env or {}, TRACE_FILE=path), workers=1,
                timeout=timeout)
        os.unlink(path)
        if r.rc == 0:
            best = [None] * len(part)
            for tid, bad in r.verdicts():
                b = best[tid - 1]
                if b is None or len(bad) < len(b):
                    best[tid - 1] = bad
            out += [UNEXPLAINED if b is None else b for b in best]
        elif UNEXPLAINED in out:
            out += [''] * len(part)
        else:
            out += _isolate(module, part, cfg, env, timeout)
    return out
