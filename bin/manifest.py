#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = ('TLC generates every input/history with the outcome the TLA+ spec '
       'prescribes; replayed on the real code')
TR = ('TLA+ design checked with TLC; executions of the real code under a '
      'deterministic scheduler validated as traces of the TLA+ contract')
CACHE = ('Design Cache.tla: up to 4 calls on 2..3 loops, stops, failures, '
         'cancellations. Code: core programs with every single line-level '
         'preemption, random schedules, garbage collection at random lines.')
BATCHER = ('Design Batcher.tla: up to 5 calls in discrete time. Code: random '
           'timed programs (up to 12 calls) with all kinds of batch function '
           'behaviour in virtual time; ambiguous joins explored by TLC.')
BUFFER = ('Design Buffer.tla: loop thread and 1..2 foreign threads, failing '
          'function, shutdown. Code: random timed programs in virtual time, '
          'foreign-thread programs with line-level preemption.')
CHECKS = {
    'C02': (TR, 'Design FileLock.tla: 3 threads/processes, exhaustively. Code:'
            ' all single preemptions of core programs and random schedules of '
            'up to 4 threads, up to 16 real processes.'),
    'C01': (TR, CACHE), 'C05': (TR, CACHE), 'C06': (TR, CACHE),
    'C03': (TR, BUFFER), 'C07': (TR, BUFFER), 'C08': (TR, BUFFER),
    'C04': (TR, BATCHER), 'C09': (TR, BATCHER), 'C10': (TR, BATCHER),
    'C11': (TR, BATCHER),
    'C12': (GEN + '; fault-injected and concurrent executions validated as '
            'traces', 'Histories to depth 3 (all operations) / 4 (core '
            'operations), deeper ones by random walks of the spec; thorough: '
            'depth 7 for a reduced operation set.'),
    'C13': ('TLA+ design with crash actions checked with TLC; real processes '
            'killed at every line event, their logs validated as traces of '
            'the TLA+ contract', 'Kill points: line events of filelock.py '
            'plus random instants; 0..2 contenders.'),
    'C14': (GEN, 'Signatures and eviction histories within the bounds of '
            'Keys.tla.'),
    'C15': (GEN + ' (configurations, probes); recorded executions of all '
            'forms validated as traces of the contracts and compared',
            'Forms.tla: all combinations of option values; FormsCache.tla: '
            'histories to depth 4/6; Loops.tla: 2..3 threads, 3 loops. Code: '
            'also random programs on 1..3 loops in turn and at once.'),
    'C16': (TR, 'Design Bridge.tla. Code: iterators of up to 4 elements with '
            'all kinds of delays and failures, all single preemptions and '
            'random schedules.'),
    'C17': (TR, 'Design CrossLoop.tla: 2..3 callers and loop_in_thread. Code:'
            ' core programs with single line-level preemptions, random '
            'programs of 2..3 callers with random schedules.'),
    'C18': (GEN, 'Bounds of Split.tla: source length and all consumption '
            'interleavings.'),
    'C19': (GEN, 'Literal grammar and item lists within the bounds of '
            'Parse.tla/ParseList.tla.'),
    'C20': (GEN, 'All outcome/finishing-order/filter combinations within the '
            'bounds of Gather.tla.'),
}
ALL = ['C%02d' % i for i in range(1, 21)]


def main():
    checks = [dict(property=p, quick_cmd=f'python3 bin/check.py {p} quick',
                   thorough_cmd=f'python3 bin/check.py {p} thorough',
                   technique=CHECKS[p][0], level='model_checking',
                   level_note=CHECKS[p][1])
              for p in ALL if p in CHECKS]
    na = [dict(property=p, reason='check not built yet')
          for p in ALL if p not in CHECKS]
    m = dict(version=1, setup_cmd='bash bin/setup.sh', checks=checks,
             not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
