"""A single-threaded event loop in virtual time.

select() advances the clock instead of waiting, so timeouts cost nothing
and are exact; a loop which would wait forever ends with Idle."""
import asyncio
from asyncio import base_events


class Idle(BaseException):
    """Nothing is scheduled any more: the program would hang."""


class StepLimit(BaseException):
    pass


class _Sel:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        lp = self.loop
        lp.steps += 1
        if lp.steps > lp.max_steps:
            raise StepLimit
        if timeout is None:
            raise Idle
        if timeout > 0:
            lp.clock += timeout
            # exact instants: no accumulating float noise
            r = round(lp.clock, 6)
            if abs(r - lp.clock) < 1e-9:
                lp.clock = r
        return []

    def close(self):
        pass


class VLoop(base_events.BaseEventLoop):
    def __init__(self, max_steps=20000):
        super().__init__()
        self.clock = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self._selector = _Sel(self)
        self._clock_resolution = 1e-7
        self.set_exception_handler(lambda *a: None)

    def time(self):
        return self.clock

    def _write_to_self(self):
        pass

    def _process_events(self, ev):
        pass


def ms(loop):
    return int(round(loop.clock * 1000))


def run(main, max_steps=20000):
    """Run a coroutine function like asyncio.run; ('ok', v)|('idle'|...)"""
    loop = VLoop(max_steps)
    asyncio.set_event_loop(loop)
    try:
        try:
            return 'ok', loop.run_until_complete(main(loop))
        except Idle:
            return 'idle', None
        except StepLimit:
            return 'steps', None
    finally:
        try:
            loop.max_steps = loop.steps + 5000
            tasks = asyncio.all_tasks(loop)
            for t in tasks:
                t.cancel()
            if tasks:
                try:
                    loop.run_until_complete(
                        asyncio.gather(*tasks, return_exceptions=True))
                except (Idle, StepLimit):
                    pass
            try:
                loop.run_until_complete(loop.shutdown_asyncgens())
            except (Idle, StepLimit, RuntimeError):
                pass
        finally:
            asyncio.set_event_loop(None)
            loop.close()
