"""Deterministic simulation runtime for threaded/asyncio Python code.

Real OS threads run the real code under test, but only one of them at a
time: a baton is handed over at *control points* (source lines of the
modules under test, lock operations, sleeps, event-loop selects, thread
starts).  A pluggable strategy decides who runs next, and time is virtual:
it only advances when every thread is blocked.  Nothing in the code under
test is modified; the standard library primitives it stands on
(threading locks and threads, time, the event loop's selector) are
replaced before it is imported.

install() must be called before anything from aiuti is imported.
"""
import sys
import gc
import time
import _thread
import logging           # imported before patching: keeps its real locks
import warnings
import weakref           # noqa
import random
import threading
import queue
import traceback

_real_sleep = time.sleep
_real_time = time.time
_real_monotonic = time.monotonic
_get_ident = _thread.get_ident
_alloc = _thread.allocate_lock


class SimAbort(BaseException):
    """Raised inside left-over threads when a run is being torn down."""


class Th:
    """One simulated thread."""
    __slots__ = ('id', 'name', 'fn', 'gate', 'pred', 'deadline', 'blocked',
                 'done', 'donelock', 'ident', 'abort', 'yielded', 'spins',
                 'daemon', 'why', 'exc', 'streak')

    def __init__(self, id, name, fn, daemon=False):
        self.id = id
        self.name = name
        self.fn = fn
        self.gate = _alloc()
        self.gate.acquire()
        self.donelock = _alloc()
        self.donelock.acquire()
        self.pred = None
        self.deadline = None
        self.blocked = False
        self.done = False
        self.ident = None
        self.abort = 0
        self.yielded = False
        self.spins = 0
        self.daemon = daemon
        self.why = 'new'
        self.exc = None
        self.streak = 0


class Strategy:
    """Run-to-block schedule with explicit preemptions.

    preempt maps a step number to the rank of the candidate to switch to.
    order: 'fifo' or 'rand' choice among candidates when the current
    thread blocks.  p: probability of a random preemption per step.
    pct: number of random priority change points (PCT scheduler).
    """

    def __init__(self, preempt=None, seed=0, order='fifo', p=0.0,
                 pct=0, pct_len=400):
        self.preempt = preempt or {}
        self.rng = random.Random(seed)
        self.order = order
        self.p = p
        self.multi = []          # steps at which >= 2 candidates existed
        self.pct = pct
        if pct:
            self.prio = {}
            self.changes = {self.rng.randrange(1, pct_len)
                            for _ in range(pct)}
            self.low = 0

    def _priority(self, th):
        if th.id not in self.prio:
            self.prio[th.id] = 1 + self.rng.random()
        return self.prio[th.id]

    def at_point(self, sched, cur, others):
        """cur is runnable; others: other candidates (non-empty)."""
        step = sched.step
        self.multi.append((step, len(others)))
        if self.pct:
            if step in self.changes:
                self.low -= 1
                self.prio[cur.id] = self.low
            best = cur
            for o in others:
                if self._priority(o) > self._priority(best):
                    best = o
            return best
        r = self.preempt.get(step)
        if r is not None:
            return others[r % len(others)]
        if self.p and self.rng.random() < self.p:
            return self.rng.choice(others)
        return cur

    def at_block(self, sched, cands):
        if self.pct:
            return max(cands, key=self._priority)
        if self.order == 'rand' and len(cands) > 1:
            return self.rng.choice(cands)
        return cands[0]


class Sched:
    def __init__(self, strategy=None, max_steps=60000, max_clock=100000.0,
                 fair=400, busy=4000):
        self.threads = []
        self.clock = 0.0
        self.strategy = strategy or Strategy()
        self.current = None
        self.step = 0
        self.max_steps = max_steps
        self.busy = busy    # steps at one instant before time passes anyway
        self.max_clock = max_clock
        self.fair = fair
        self.finished = _alloc()
        self.finished.acquire()
        self.over = False
        self.aborting = False
        self.end = None          # 'done' | 'deadlock' | 'steps' | 'clock'
        self.events = []
        self.nid = 0
        self.rr = 0
        self.since_clock = 0
        self.gc_at = None        # step at which garbage is collected

    # -- logging -----------------------------------------------------------
    def log(self, e, **kw):
        if self.over:
            return
        kw['e'] = e
        kw['t'] = int(round(self.clock * 1000))
        self.events.append(kw)

    # -- threads -----------------------------------------------------------
    def spawn(self, fn, name='?', daemon=False):
        th = Th(self.nid, name, fn, daemon)
        self.nid += 1
        self.threads.append(th)
        th.why = 'start'
        _thread.start_new_thread(self._boot, (th,))
        return th

    def _boot(self, th):
        th.ident = _get_ident()
        th.gate.acquire()
        try:
            if not th.abort:
                th.fn()
        except SimAbort:
            pass
        except BaseException as e:   # noqa
            th.exc = e
        th.fn = None
        th.done = True
        th.donelock.release()
        if not self.aborting and not self.over:
            try:
                self._leave(th)
            except SimAbort:
                pass

    def me(self):
        c = self.current
        if c is not None and c.ident == _get_ident():
            return c
        return None

    # -- candidate computation ----------------------------------------------
    def _ready(self, th):
        if th.done:
            return False
        if not th.blocked:
            return True
        if th.pred is not None and th.pred():
            return True
        return th.deadline is not None and th.deadline <= self.clock

    def _switch(self, cur, nxt):
        if nxt is cur:
            return
        cur.streak = 0
        self.current = nxt
        nxt.gate.release()
        cur.gate.acquire()
        if cur.abort:
            raise SimAbort

    def _finish(self, how):
        if not self.over:
            self.end = how
            self.over = True
            self.finished.release()

    def _park(self, th):
        """The run is over: wait for the teardown."""
        th.gate.acquire()
        raise SimAbort

    def _leave(self, th):
        """th is done: pass the baton on."""
        if th.id == 0:
            self._finish('done')
            return
        nxt = self._next_for_block()
        if nxt is None:
            return
        self.current = nxt
        nxt.gate.release()

    def _next_for_block(self):
        """Pick who runs when the current thread cannot; may advance time."""
        while True:
            cands = [t for t in self.threads if self._ready(t)]
            fresh = [t for t in cands if not t.yielded]
            if fresh:
                for t in cands:
                    t.yielded = False
                    t.spins = 0
                return self.strategy.at_block(self, fresh)
            if cands:             # only spinners: let them spin a little
                for t in cands:
                    if t.spins < 3:
                        t.spins += 1
                        return t
            dls = [t.deadline for t in self.threads
                   if not t.done and t.blocked and t.deadline is not None
                   and t.deadline > self.clock]
            if dls:
                self._advance(min(dls))
                if self.clock > self.max_clock:
                    self._finish('clock')
                    return None
                for t in cands:
                    t.yielded = False
                    t.spins = 0
                continue
            if cands:
                # spinning threads and nothing else can ever happen ...
                # unless the spin is bounded: let it run to the step limit
                self.step += 1
                if self.step > self.max_steps:
                    self._finish('steps')
                    return None
                self.rr += 1
                return cands[self.rr % len(cands)]
            self._finish('deadlock')
            return None

    def _advance(self, t):
        self.clock = t
        self.since_clock = 0

    # -- control points ------------------------------------------------------
    def point(self):
        """The current thread can continue; maybe switch to another one."""
        t = self.current
        if t is None or t.ident != _get_ident():
            return
        if self.aborting or self.over:
            if t.abort:
                raise SimAbort
            if self.over and not self.aborting:
                self._park(t)
            return
        self.step += 1
        self.since_clock += 1
        if self.step == self.gc_at:
            gc.collect()
        if self.step > self.max_steps:
            self._finish('steps')
            self._park(t)
        if len(self.threads) == 1:
            if self.since_clock > 5 * self.busy:
                self._finish('steps')
                self._park(t)
            return
        others = [o for o in self.threads
                  if o is not t and not o.yielded and self._ready(o)]
        t.streak += 1
        if not others:
            if self.since_clock > self.busy:
                # busy loop while others only wait for time to pass
                dls = [o.deadline for o in self.threads
                       if not o.done and o.blocked and o.deadline is not None
                       and o.deadline > self.clock]
                if dls:
                    self._advance(min(dls))
            return
        if t.streak > self.fair:
            t.streak = 0
            self.rr += 1
            self._switch(t, others[self.rr % len(others)])
            return
        nxt = self.strategy.at_point(self, t, others)
        if nxt is not t:
            self._switch(t, nxt)

    def block(self, pred, deadline=None, why=''):
        """Block until pred() or deadline; True iff pred() held."""
        t = self.current
        if self.aborting or self.over:
            if t is not None and t.ident == _get_ident():
                if t.abort:
                    raise SimAbort
                self._park(t)
            return True
        t.pred = pred
        t.deadline = deadline
        t.blocked = True
        t.why = why
        nxt = self._next_for_block()
        if nxt is None:
            self._park(t)
        self._switch(t, nxt)
        t.blocked = False
        ok = pred is not None and bool(pred())
        t.pred = None
        t.deadline = None
        return ok

    def pause(self):
        """sleep(0): give every other runnable thread a chance."""
        t = self.current
        if self.aborting or self.over:
            return self.point()
        self.step += 1
        if self.step > self.max_steps:
            self._finish('steps')
            self._park(t)
        t.yielded = True
        nxt = self._next_for_block()
        if nxt is None:
            self._park(t)
        self._switch(t, nxt)
        t.yielded = False

    def sleep(self, dt):
        if dt <= 0:
            return self.pause()
        self.block(None, self.clock + dt, 'sleep')

    # -- running -----------------------------------------------------------
    def run(self, main, real_timeout=120):
        global SCHED
        SCHED = self
        th = self.spawn(main, 'main')
        self.current = th
        th.gate.release()
        if not self.finished.acquire(True, real_timeout):
            self.end = 'stuck'
            self.over = True
        self._teardown()
        SCHED = None
        return th

    def _teardown(self):
        self.aborting = True
        for th in list(self.threads):
            if th.done:
                continue
            for _ in range(50):
                th.abort += 1
                self.current = th
                try:
                    th.gate.release()
                except RuntimeError:
                    pass
                if th.donelock.acquire(True, 0.25):
                    th.donelock.release()
                    break
                if th.abort > 3:
                    break


SCHED = None


def cur():
    """The scheduler, if the calling thread is its running thread."""
    s = SCHED
    if s is None:
        return None
    c = s.current
    if c is None or c.ident != _get_ident():
        return None
    return s


# ---------------------------------------------------------------------------
# replacements
# ---------------------------------------------------------------------------

class SimLock:
    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout < 0 and timeout != -1:
            raise ValueError("timeout value must be a non-negative number")
        s = cur()
        if s is None or s.aborting or s.over:
            if s is not None:
                s.point()
            if self._locked and not blocking:
                return False
            self._locked = True
            return True
        s.point()
        if self._locked:
            if not blocking or timeout == 0:
                return False
            dl = None if timeout < 0 else s.clock + timeout
            if not s.block(lambda: not self._locked, dl, 'lock'):
                return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            s = cur()
            if s is not None and s.aborting:
                raise SimAbort
            raise RuntimeError('release unlocked lock')
        self._locked = False
        s = cur()
        if s is not None and not s.aborting:
            s.point()

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout < 0 and timeout != -1:
            raise ValueError("timeout value must be a non-negative number")
        me = _get_ident()
        s = cur()
        if s is None or s.aborting or s.over:
            if s is not None:
                s.point()
            self._owner = me
            self._count += 1
            return True
        s.point()
        if self._owner == me:
            self._count += 1
            return True
        if self._count:
            if not blocking or timeout == 0:
                return False
            dl = None if timeout < 0 else s.clock + timeout
            if not s.block(lambda: self._count == 0, dl, 'rlock'):
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner != _get_ident() or not self._count:
            s = cur()
            if s is not None and s.aborting:
                raise SimAbort
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            s = cur()
            if s is not None and not s.aborting:
                s.point()

    def locked(self):
        return self._count > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


_thread_objs = {}


class SimThread:
    """Stand-in for threading.Thread inside a simulation."""
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, *, daemon=None):
        SimThread._n += 1
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = name or 'Sim-%d' % SimThread._n
        self.daemon = bool(daemon)
        self._th = None
        self.ident = None
        self.native_id = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def _main(self):
        self.ident = _get_ident()
        _thread_objs[self.ident] = self
        try:
            self.run()
        finally:
            _thread_objs.pop(self.ident, None)
            self._target = self._args = self._kwargs = None

    def start(self):
        if self._th is not None:
            raise RuntimeError("threads can only be started once")
        s = cur()
        if s is None:
            raise RuntimeError("no simulation running")
        self._th = s.spawn(self._main, self.name, self.daemon)
        s.point()

    def join(self, timeout=None):
        th = self._th
        if th is None:
            raise RuntimeError("cannot join thread before it is started")
        s = cur()
        if s is None or s.aborting:
            return
        s.point()
        if not th.done:
            dl = None if timeout is None else s.clock + max(0, timeout)
            s.block(lambda: th.done, dl, 'join')

    def is_alive(self):
        return self._th is not None and not self._th.done

    isAlive = is_alive

    def setDaemon(self, d):
        self.daemon = d

    def getName(self):
        return self.name


class SimTimer(SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.interval = interval
        self.function = function
        self.args = args or []
        self.kwargs = kwargs or {}
        self.finished = threading.Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


_installed = False
_real = {}


WALL = 0.0      # by how much time.time() was set forward


def install():
    """Patch the standard library.  Call once, before importing aiuti."""
    global _installed
    if _installed:
        return
    _installed = True
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    sys.unraisablehook = lambda *a: None
    _real['current_thread'] = threading.current_thread
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._CRLock = None
    threading.Thread = SimThread
    threading.Timer = SimTimer

    def current_thread():
        return _thread_objs.get(_get_ident()) or _real['current_thread']()
    threading.current_thread = current_thread
    threading.currentThread = current_thread
    queue.SimpleQueue = queue._PySimpleQueue

    def sleep(dt):
        s = cur()
        if s is None:
            return _real_sleep(dt)
        s.sleep(dt)

    def vtime():
        s = cur()
        return 1e9 + WALL + s.clock if s is not None else _real_time()

    def vmono():
        s = cur()
        return 1e6 + s.clock if s is not None else _real_monotonic()
    time.sleep = sleep
    time.time = vtime
    time.monotonic = vmono
    time.perf_counter = vmono
    time.time_ns = lambda: int(vtime() * 1e9)
    time.monotonic_ns = lambda: int(vmono() * 1e9)
    time.perf_counter_ns = lambda: int(vmono() * 1e9)
    _make_loop_class()


class _Sel:
    """The simulated selector: waits in virtual time."""

    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        loop = self.loop
        s = cur()
        if s is None:
            raise SimAbort
        s.point()
        if not loop._woken and (timeout is None or timeout > 0):
            dl = None if timeout is None else s.clock + timeout
            s.block(lambda: loop._woken, dl, 'select')
        loop._woken = False
        return []

    def close(self):
        pass


SimLoop = None
asyncio = None


def _make_loop_class():
    global SimLoop, asyncio
    import asyncio as _aio
    import concurrent.futures.thread  # noqa
    asyncio = _aio
    from asyncio import base_events, events

    class _SimLoop(base_events.BaseEventLoop):
        def __init__(self):
            super().__init__()
            self._woken = False
            self._selector = _Sel(self)
            self.label = None

        def time(self):
            s = SCHED
            return s.clock if s is not None else 0.0

        def _write_to_self(self):
            self._woken = True
            s = cur()
            if s is not None and not s.aborting:
                s.point()

        def _process_events(self, ev):
            pass

        # SelectorEventLoop refuses to call_soon on a closed loop etc. in
        # the same way: inherited from BaseEventLoop

        def run_forever(self):
            if self.label is None:
                return super().run_forever()
            s = cur()
            if s is not None and self._thread_id is None \
                    and not self.is_closed():
                s.log('up', loop=self.label)
                try:
                    return super().run_forever()
                finally:
                    s.log('down', loop=self.label)
            if s is not None:
                s.log('badrun', loop=self.label,
                      why='closed' if self.is_closed() else 'running')
            return super().run_forever()

        def close(self):
            was = self.is_closed()
            super().close()
            s = cur()
            if s is not None and self.label is not None and not was:
                s.log('closed', loop=self.label)

    class Policy(events.BaseDefaultEventLoopPolicy):
        _loop_factory = _SimLoop

        def get_event_loop(self):
            if self._local._loop is None:
                raise RuntimeError('There is no current event loop')
            return self._local._loop

    _aio.set_event_loop_policy(Policy())
    SimLoop = _SimLoop


# ---------------------------------------------------------------------------
# line-level control points
# ---------------------------------------------------------------------------
_TOOL = 3
_line_enabled = False
LINES_ON = True


def _on_line(code, line):
    s = SCHED
    if s is not None and LINES_ON:
        s.point()


def _walk(code, seen):
    if code in seen:
        return
    seen.add(code)
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            _walk(c, seen)


def instrument(codes):
    """Make every source line of the given module code objects a control
    point (sys.monitoring: no cost elsewhere, nothing is rewritten)."""
    global _line_enabled
    mon = sys.monitoring
    if not _line_enabled:
        mon.use_tool_id(_TOOL, 'detsim')
        mon.register_callback(_TOOL, mon.events.LINE, _on_line)
        _line_enabled = True
    seen = set()
    for c in codes:
        _walk(c, seen)
    for c in seen:
        mon.set_local_events(_TOOL, c, mon.events.LINE)


class Loader:
    """Fresh copies of modules of the code under test, compiled once."""

    def __init__(self, root='/repo'):
        self.root = root
        self.code = {}
        import types
        self.types = types

    def compile(self, name):
        """name: 'asyncio' -> aiuti/asyncio.py"""
        if name not in self.code:
            path = f'{self.root}/aiuti/{name}.py'
            with open(path, 'rb') as f:
                src = f.read()
            self.code[name] = compile(src, path, 'exec', dont_inherit=True)
        return self.code[name]

    def fresh(self, name):
        code = self.compile(name)
        mod = self.types.ModuleType('aiuti.' + name)
        mod.__package__ = 'aiuti'
        mod.__file__ = f'{self.root}/aiuti/{name}.py'
        sys.modules['aiuti.' + name] = mod
        exec(code, mod.__dict__)
        return mod


def setup_repo(root='/repo', lines=()):
    """install() + import path + line instrumentation of modules."""
    install()
    sys.dont_write_bytecode = True
    if root not in sys.path:
        sys.path.insert(0, root)
    ld = Loader(root)
    import aiuti  # noqa
    import aiuti.typing  # noqa
    codes = [ld.compile(n) for n in lines]
    instrument(codes)
    return ld
