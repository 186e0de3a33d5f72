From 3348aa920f3f172cdb18e228583ae81c47c534b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 01/22] fix: FileLock with-statement must not enter without
 holding the lock

__enter__ ignored the result of acquire(), so with a default timeout the
block was entered although the lock was not acquired, and leaving it
could even release the lock of the actual holder.
---
 aiuti/filelock.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 11430cd..0d59076 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -304,7 +304,8 @@ class BaseFileLock(abc.ABC):
         self._lock_counter = max(0, self._lock_counter - 1)
 
     def __enter__(self: FileLockT) -> FileLockT:
-        self.acquire()
+        if not self.acquire():
+            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
         return self
 
     def __exit__(self, *_exc: Any) -> None:
-- 
2.43.0


From 38bd3538dbbfdef28c74a7973e57753119787f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 02/22] fix: forced release of a nested reentrant FileLock
 frees it for others

Only one level of the internal RLock was released, so no other thread
could ever acquire the lock again.
---
 aiuti/filelock.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 0d59076..5324d78 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -222,6 +222,9 @@ class BaseFileLock(abc.ABC):
         if not self.is_locked:
             return
 
+        # Number of times the thread lock needs to be released
+        levels = self._lock_counter if force else 1
+
         self._decrement_lock_counter()
 
         if self._lock_counter == 0 or force:
@@ -238,7 +241,8 @@ class BaseFileLock(abc.ABC):
                 _logger.info('Lock %s released on %s', lid, fn)
 
         try:
-            self._thread_lock.release()
+            for _ in range(levels):
+                self._thread_lock.release()
         except RuntimeError:  # not reentrant and already unlocked
             pass
 
-- 
2.43.0


From 80751dd62cfc42db0d6c4c721d4db2b1bbae71a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 03/22] fix: reset the FileLock depth when the OS fails while
 releasing it

After a forced release whose unlock or close failed, the stale depth
made the next matching release keep the lock forever.
---
 aiuti/filelock.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 5324d78..e7b1339 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -237,8 +237,10 @@ class BaseFileLock(abc.ABC):
             except:  # noqa
                 _logger.exception("Failed to release lock %s on %s", lid, fn)
             else:
-                self._lock_counter = 0
                 _logger.info('Lock %s released on %s', lid, fn)
+            finally:
+                # The descriptor is gone either way
+                self._lock_counter = 0
 
         try:
             for _ in range(levels):
-- 
2.43.0


From 1925f1329bfd3f21d92a4b0ff73ea5a154af154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 04/22] fix: a cached computation only removes its own
 in-flight marker

When its loop had been stopped, another loop may have taken over and
installed a new marker (or already removed it again). Deleting it
unconditionally let a third caller start a second, overlapping
computation or raised KeyError out of the cache.
---
 aiuti/asyncio.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 2b71748..28c7f9d 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -435,8 +435,11 @@ def threadsafe_async_cache(
                         # Wake up any waiting tasks
                         event.set()
                         # Allow garbage collection and/or another loop
-                        # to take over caching if this failed
-                        del events[key]
+                        # to take over caching if this failed, unless
+                        # another loop already has because this one
+                        # was stopped for a while
+                        if events.get(key) == (caching_loop, event):
+                            del events[key]
                 return result
 
             # Need to wait for another task, possibly across threads
-- 
2.43.0


From 7e54b260353ac4eaf6498d97d6b00695cd69f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 05/22] fix: waiting for a cached value survives shutdown of
 the caching loop

The shutdown cancels the proxy task which waits on the caching loop for
callers on other loops. These saw that as a CancelledError although
nobody had cancelled them.
---
 aiuti/asyncio.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 28c7f9d..11a7ab8 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -460,21 +460,25 @@ def threadsafe_async_cache(
             # wait_for will swallow CancelledErrors if the wrapped task
             # is already finished. This can cause confusion and missed
             # timeouts when there are multiple nested wait_fors.
-            # Shielding and handling the cancellation directly avoids
+            # Waiting and handling the cancellation directly avoids
             # this confusion by preventing this wait_for from seeing
-            # the outer CancelledError directly.
+            # the outer CancelledError directly. Furthermore, it only
+            # raises when this very task is cancelled and not when the
+            # waiter is because the caching loop is shutting down.
             try:
-                await aio.shield(waiter)
-            except aio.TimeoutError:  # Possible original task lost?
-                pass  # Need to loop around and check
+                await aio.wait({waiter})
             except (Exception, aio.CancelledError):
                 if not waiter.done():
                     waiter.cancel()
                     try:
                         await waiter
-                    except aio.CancelledError:
+                    except (Exception, aio.CancelledError):
                         pass
                 raise
+            # Loop around and check, even if this timed out (possible
+            # original task lost?)
+            if not waiter.cancelled():
+                waiter.exception()  # Mark as retrieved
 
     return _wrapper  # type: ignore[return-value]
 
-- 
2.43.0


From 1f9aa460287030c221d0f6de608b0b48c368ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 06/22] fix: no deadlock when an abandoned cached call is
 garbage collected

Its cleanup needs the lock, which the thread running the garbage
collector may already hold.
---
 aiuti/asyncio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 11a7ab8..4a9dd7e 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -34,7 +34,7 @@ from asyncio import (
     run_coroutine_threadsafe as run_coro_ts,
 )
 from itertools import islice
-from threading import Lock
+from threading import Lock, RLock
 from functools import partial, wraps
 from concurrent.futures import ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
@@ -382,7 +382,9 @@ def threadsafe_async_cache(
     # 1 loop + event per input key currently caching
     events: Dict[Tuple[Any, ...], Tuple[aio.AbstractEventLoop, aio.Event]] = {}
     # Ensure thread safety while creating events
-    event_making_lock = Lock()
+    # Reentrant because an abandoned call (pending on a stopped loop) may
+    # be garbage collected, running its cleanup, while the lock is held
+    event_making_lock = RLock()
 
     @wraps(_func)
     async def _wrapper(*args: Any, **kwargs: Any) -> Any:
-- 
2.43.0


From d57b86b4467eab40b8cc100f3c4f360ce69df240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 07/22] fix: buffered arguments are not delivered again after a
 success

A submission from another thread right after a successful call clears
the completion flag again, which made the processing task call the
function once more with the same arguments.
---
 aiuti/asyncio.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 4a9dd7e..6b02879 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -748,11 +748,12 @@ class BufferAsyncCalls(Generic[T]):
             try:
                 await _load_inputs(await self._getting)
             except (aio.TimeoutError, aio.CancelledError):
-                await self._run_func(inputs)
+                if await self._run_func(inputs):
+                    return  # Even if the event was just cleared again
             else:
                 self.q.task_done()
 
-    async def _run_func(self, inputs: Set[T]) -> None:
+    async def _run_func(self, inputs: Set[T]) -> bool:
         """
         Run :attr:`func` with the given set of inputs and set
         :attr:`event` once it has finished successfully.
@@ -766,8 +767,10 @@ class BufferAsyncCalls(Generic[T]):
                 await self.func(inputs)
         except BaseException as e:  # noqa
             logging.exception("Failed to run %s, retrying", self.func)
+            return False
         else:
             self.event.set()
+            return True
 
     def _schedule_with_timeout(self, coro: Awaitable[X]) -> 'aio.Task[X]':
         """
-- 
2.43.0


From 847a90252241b1ca79437696a74fea0186d3832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 08/22] fix: cancelling the background task of a buffer
 terminates it

Unless it was idle, the cancellation was mistaken for a flush request, a
failing producer or a failing call and swallowed, so shutting down the
event loop (i.e. asyncio.run) could hang forever.
---
 aiuti/asyncio.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 6b02879..58d4dd1 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -723,6 +723,8 @@ class BufferAsyncCalls(Generic[T]):
                     inputs.add(i)
             except BaseException:  # noqa
                 logger.exception("Failed to get args from: %r", iterable)
+                if self._waiting.cancel_requested:
+                    raise
 
         # Get first element, block infinitely until one appears
         try:
@@ -748,6 +750,8 @@ class BufferAsyncCalls(Generic[T]):
             try:
                 await _load_inputs(await self._getting)
             except (aio.TimeoutError, aio.CancelledError):
+                if self._waiting.cancel_requested:
+                    raise
                 if await self._run_func(inputs):
                     return  # Even if the event was just cleared again
             else:
@@ -766,6 +770,8 @@ class BufferAsyncCalls(Generic[T]):
             if inputs:  # Could be empty if all empty iterators
                 await self.func(inputs)
         except BaseException as e:  # noqa
+            if self._waiting.cancel_requested:
+                raise
             logging.exception("Failed to run %s, retrying", self.func)
             return False
         else:
@@ -1390,6 +1396,14 @@ class DaemonTask(aio.Task):  # type: ignore
     therefore doesn't warn when it is still pending at loop shutdown.
     """
 
+    #: Has this very task been asked to stop? Allows to distinguish that
+    #: from a CancelledError raised by something it is waiting for.
+    cancel_requested: bool = False
+
+    def cancel(self, *args: Any, **kwargs: Any) -> bool:
+        self.cancel_requested = True
+        return super().cancel(*args, **kwargs)
+
     if sys.version_info < (3, 8):
 
         # Ignore name arg when it isn't available for compatibility
-- 
2.43.0


From 1a5c620e00919d5a881d5dbddcf8387922aa9481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 09/22] fix: batcher callers are answered whatever the batch
 function does

A yielded StopIteration is refused by futures after its key was already
forgotten and a CancelledError (or other BaseException) raised by the
batch function was not passed on, leaving callers pending forever.
---
 aiuti/asyncio.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 58d4dd1..d791cdf 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1206,14 +1206,23 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                 )
                 async for key, result in self.func(args):
                     fut = futs.pop(key)
-                    if isinstance(result, Exception):
+                    if isinstance(result, StopIteration):
+                        # Not allowed in futures, raised like this by
+                        # coroutines as well
+                        exc = RuntimeError("batch function yielded"
+                                           " StopIteration")
+                        exc.__cause__ = result
+                        fut.set_exception(exc)
+                    elif isinstance(result, Exception):
                         fut.set_exception(result)
                     else:
                         fut.set_result(result)
-        except Exception as e:
+        except BaseException as e:  # noqa
             logger.debug("Exception while processing batch", exc_info=True)
             for fut in futs.values():
                 fut.set_exception(e)
+            if not isinstance(e, Exception):
+                raise
             return
 
         if futs:
-- 
2.43.0


From 3aeae8ac669e7742a1a42505ba269dfde9968f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 10/22] fix: cancelling a batcher caller doesn't disturb the
 others

It cancelled the future shared with callers of the same key and made
setting its result fail, which failed or hung the rest of the batch. It
also forgot the key while it was still pending.
---
 aiuti/asyncio.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index d791cdf..4453482 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1108,22 +1108,30 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
         except KeyError:
             pass
         else:
-            return await fut
+            # Shielded as the future is shared with other callers which
+            # must not be affected if this one is cancelled
+            return await aio.shield(fut)
 
         fut = self._retention_cache[key] = self._loop.create_future()
+        # Independent of this caller as it may be cancelled before
+        fut.add_done_callback(partial(self._forget, key))
         await self._queue.put((key, arg, fut))
 
-        try:
-            return await fut
-        finally:
-            if self.retention_timeout > 0:
-                self._loop.call_later(
-                    self.retention_timeout,
-                    self._retention_cache.pop,
-                    key,
-                )
-            else:
-                del self._retention_cache[key]
+        return await aio.shield(fut)
+
+    def _forget(self, key: str, _fut: 'aio.Future[R_co]') -> None:
+        """
+        Remove a finished request from :attr:`_retention_cache` once it
+        shouldn't be reused any longer.
+        """
+        if self.retention_timeout > 0:
+            self._loop.call_later(
+                self.retention_timeout,
+                self._retention_cache.pop,
+                key,
+            )
+        else:
+            del self._retention_cache[key]
 
     def _daemon_task(
         self,
-- 
2.43.0


From 5c8ded85fe3f6e2bb363c664eecef1240437611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 11/22] fix: async_background_batcher(retention_timeout=...) is
 not ignored

The option was dropped when used as a decorator with options.
---
 aiuti/asyncio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 4453482..4a5d805 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -827,6 +827,7 @@ def async_background_batcher(
     max_batch_size: int = ...,
     max_concurrent_batches: int = ...,
     batch_timeout: float = ...,
+    retention_timeout: float = ...,
 ) -> Callable[
     [_BatchFunc[A_contra, R_co]],
     _AsyncBackgroundBatcherProto[A_contra, R_co],
@@ -840,6 +841,7 @@ def async_background_batcher(
     max_batch_size: int = ...,
     max_concurrent_batches: int = ...,
     batch_timeout: float = ...,
+    retention_timeout: float = ...,
 ) -> _AsyncBackgroundBatcherProto[A_contra, R_co]: ...
 
 
@@ -921,6 +923,7 @@ def async_background_batcher(
             max_batch_size=max_batch_size,
             max_concurrent_batches=max_concurrent_batches,
             batch_timeout=batch_timeout,
+            retention_timeout=retention_timeout,
         )
 
     batchers: 'WeakKeyDict[Loop, AsyncBackgroundBatcher[A_contra, R_co]]' \
-- 
2.43.0


From 617227dd4bb1e7162389e938595bfe5326395d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 12/22] fix: gather_excs only reports exceptions which were
 raised

An exception object *returned* by an awaitable was reported (and raised
by raise_first_exc) as if that awaitable had failed.
---
 aiuti/asyncio.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 4a5d805..bbf7c6a 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -97,9 +97,14 @@ async def gather_excs(
     :param only:
         Optional specific type of exceptions to filter on and yield
     """
-    for res in await aio.gather(*aws, return_exceptions=True):
-        if isinstance(res, only):
-            yield res
+    aws = list(aws)
+    futs = {aw: aio.ensure_future(aw) for aw in dict.fromkeys(aws)}
+    await aio.gather(*futs.values(), return_exceptions=True)
+    for fut in map(futs.__getitem__, aws):
+        # Not using the results as exceptions may be returned as well
+        exc = aio.CancelledError() if fut.cancelled() else fut.exception()
+        if isinstance(exc, only):
+            yield exc
 
 
 async def raise_first_exc(aws: Iterable[Awaitable[Any]],
-- 
2.43.0


From 6362d64d19936a99567e45154325885a88c1cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 13/22] fix: ensure_aw completes when sharing a loop run by
 another caller

An idle loop was only run until the awaitable of the first caller had
finished. Those of other callers, which found the loop running in the
meantime, were left on a stopped loop and never completed.
---
 aiuti/asyncio.py | 44 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index bbf7c6a..b64e478 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -36,7 +36,7 @@ from asyncio import (
 from itertools import islice
 from threading import Lock, RLock
 from functools import partial, wraps
-from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import Future, ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
 from time import sleep
 from typing import (
@@ -1298,8 +1298,19 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
     if main_loop is loop:
         return await aw
 
+    pending = _get_loop_pending(loop)
+
     if loop.is_running():
-        return await run_aw_threadsafe(aw, loop)
+        coro = aw if aio.iscoroutine(aw) else _aw_to_coro(aw)
+        fut = run_coro_ts(coro, loop)
+        # The loop may only be running until the awaitable of another
+        # caller has finished: Let whoever is running it know that this
+        # one depends on it and *then* check if that was too late
+        pending.add(fut)
+        fut.add_done_callback(pending.discard)
+        if not loop.is_running():
+            _CROSS_LOOP_POOL.submit(_run_pending, loop)
+        return await aio.wrap_future(fut)
 
     if loop.is_closed():
         raise RuntimeError("Target loop is closed!")
@@ -1307,7 +1318,11 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
     def _loop_thread() -> T:
         with _get_loop_lock(loop):
             aio.set_event_loop(loop)
-            return loop.run_until_complete(aw)
+            try:
+                return loop.run_until_complete(aw)
+            finally:
+                if pending:  # Others depend on this loop running
+                    _CROSS_LOOP_POOL.submit(_run_pending, loop)
 
     return await main_loop.run_in_executor(_CROSS_LOOP_POOL, _loop_thread)
 
@@ -1381,6 +1396,29 @@ def _get_loop_lock(loop: aio.AbstractEventLoop) -> Lock:
             return lock
 
 
+_LOOP_PENDING: 'WeakKeyDict[Loop, Set[Future[Any]]]' = WeakKeyDict()
+
+
+def _get_loop_pending(loop: Loop) -> 'Set[Future[Any]]':
+    """
+    Get the unfinished futures of :func:`ensure_aw` calls which found
+    the given loop running.
+    """
+    with _LOOP_LOCKS_CREATE_LOCK:
+        return _LOOP_PENDING.setdefault(loop, set())
+
+
+def _run_pending(loop: Loop) -> None:
+    """Run the given loop until there are no pending futures left."""
+    pending = _get_loop_pending(loop)
+    with _get_loop_lock(loop):
+        aio.set_event_loop(loop)
+        while pending:
+            for fut in tuple(pending):
+                aw = aio.wrap_future(fut, loop=loop)
+                loop.run_until_complete(aio.wait({aw}))
+
+
 async def run_aw_threadsafe(aw: Awaitable[T], loop: Loop) -> T:
     """
     Thin wrapper around :func:`asyncio.run_coroutine_threadsafe` to
-- 
2.43.0


From d44eac67fcf0e65cb324cf495bee432f7f89fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 14/22] fix: loop_in_thread waits until its own thread runs the
 loop

If ensure_aw was just running the loop, loop_in_thread returned too early
and its stop function stopped the wrong run: the ensure_aw call failed
and stopping blocked forever.
---
 aiuti/asyncio.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index b64e478..1ef1fe3 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -34,11 +34,10 @@ from asyncio import (
     run_coroutine_threadsafe as run_coro_ts,
 )
 from itertools import islice
-from threading import Lock, RLock
+from threading import Event, Lock, RLock
 from functools import partial, wraps
 from concurrent.futures import Future, ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
-from time import sleep
 from typing import (
     Any, AsyncIterable, Awaitable, Callable, Coroutine, Dict,
     MutableMapping, Generic, Iterable, Iterator, List, Optional, Protocol,
@@ -1358,15 +1357,22 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
     >>> loop.is_running()  # No longer running
     False
     """
+    started = Event()
+
     def _loop_thread() -> None:
         with _get_loop_lock(loop):
             aio.set_event_loop(loop)
+            loop.call_soon(started.set)
             loop.run_forever()
 
     future = _CROSS_LOOP_POOL.submit(_loop_thread)
 
-    while not loop.is_running():
-        sleep(0)  # Force switching to other threads
+    # Wait for this very thread to run the loop, it could still be busy
+    # with (and about to be stopped after) an awaitable of ensure_aw()
+    future.add_done_callback(lambda _: started.set())
+    started.wait()
+    if future.done():
+        future.result()  # Reveal errors
 
     def _stopper() -> None:
         loop.call_soon_threadsafe(loop.stop)
-- 
2.43.0


From 69717704d3f10eb7912944836ed5d42c981f492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:30 +0000
Subject: [PATCH 15/22] fix: a buffer's background task ends even if the
 function absorbs its cancellation

---
 aiuti/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 1ef1fe3..5e7a492 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -711,7 +711,7 @@ class BufferAsyncCalls(Generic[T]):
         Simple loop which tries to process the queue infinitely using
         :meth:`_process_queue`. This is spawned automatically upon
         """
-        while True:
+        while not self._waiting.cancel_requested:
             await self._process_queue()
 
     async def _process_queue(self) -> None:
-- 
2.43.0


From e9129c977326e242c3fa00d289a5c9bdcf841fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 16/22] fix: batcher callers are answered if the batch function
 raises StopIteration

---
 aiuti/asyncio.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 5e7a492..30b89aa 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1221,21 +1221,14 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                 )
                 async for key, result in self.func(args):
                     fut = futs.pop(key)
-                    if isinstance(result, StopIteration):
-                        # Not allowed in futures, raised like this by
-                        # coroutines as well
-                        exc = RuntimeError("batch function yielded"
-                                           " StopIteration")
-                        exc.__cause__ = result
-                        fut.set_exception(exc)
-                    elif isinstance(result, Exception):
-                        fut.set_exception(result)
+                    if isinstance(result, Exception):
+                        self._fail(fut, result)
                     else:
                         fut.set_result(result)
         except BaseException as e:  # noqa
             logger.debug("Exception while processing batch", exc_info=True)
             for fut in futs.values():
-                fut.set_exception(e)
+                self._fail(fut, e)
             if not isinstance(e, Exception):
                 raise
             return
@@ -1245,6 +1238,16 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
             for key, fut in futs.items():
                 fut.set_exception(ValueError(f"Missing result for {key!r}"))
 
+    @staticmethod
+    def _fail(fut: 'aio.Future[R_co]', exc: BaseException) -> None:
+        """Set the given exception on the given future."""
+        if isinstance(exc, StopIteration):
+            # Not allowed in futures, coroutines replace it as well
+            cause, exc = exc, RuntimeError("batch function raised"
+                                           " StopIteration")
+            exc.__cause__ = cause
+        fut.set_exception(exc)
+
 
 _CROSS_LOOP_POOL = ThreadPoolExecutor(32)
 
-- 
2.43.0


From 0c3719b2e3fc759d66246739ca780e4b6d4c53fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 17/22] fix: ensure_aw doesn't wait until others have finished
 running the loop

Finding the target idle, a pool thread waited for the lock of that loop
for as long as loop_in_thread (i.e. until it is stopped) or the awaitable
of another caller kept it. Share the loop in this case.
---
 aiuti/asyncio.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 30b89aa..95aceee 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1300,9 +1300,15 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
     if main_loop is loop:
         return await aw
 
+    if loop.is_closed():
+        raise RuntimeError("Target loop is closed!")
+
     pending = _get_loop_pending(loop)
+    lock = _get_loop_lock(loop)
 
-    if loop.is_running():
+    # Never wait for the lock: Whoever has it is running the loop, is
+    # about to or just did and it might be kept for as long as it likes
+    if loop.is_running() or not lock.acquire(blocking=False):
         coro = aw if aio.iscoroutine(aw) else _aw_to_coro(aw)
         fut = run_coro_ts(coro, loop)
         # The loop may only be running until the awaitable of another
@@ -1314,19 +1320,21 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
             _CROSS_LOOP_POOL.submit(_run_pending, loop)
         return await aio.wrap_future(fut)
 
-    if loop.is_closed():
-        raise RuntimeError("Target loop is closed!")
-
     def _loop_thread() -> T:
-        with _get_loop_lock(loop):
-            aio.set_event_loop(loop)
-            try:
-                return loop.run_until_complete(aw)
-            finally:
-                if pending:  # Others depend on this loop running
-                    _CROSS_LOOP_POOL.submit(_run_pending, loop)
-
-    return await main_loop.run_in_executor(_CROSS_LOOP_POOL, _loop_thread)
+        aio.set_event_loop(loop)
+        try:
+            return loop.run_until_complete(aw)
+        finally:
+            if pending:  # Others depend on this loop running
+                _CROSS_LOOP_POOL.submit(_run_pending, loop)
+
+    try:
+        future = _CROSS_LOOP_POOL.submit(_loop_thread)
+    except BaseException:
+        lock.release()
+        raise
+    future.add_done_callback(lambda _: lock.release())
+    return await aio.wrap_future(future)
 
 
 def loop_in_thread(loop: Loop) -> Callable[[], None]:
-- 
2.43.0


From 57c54afb98a37e629d1688779ab08468b39ffbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 18/22] fix: keep the arguments of a failed buffered call even
 if the function modified its set

---
 aiuti/asyncio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 95aceee..788edf9 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -772,7 +772,8 @@ class BufferAsyncCalls(Generic[T]):
         """
         try:
             if inputs:  # Could be empty if all empty iterators
-                await self.func(inputs)
+                # Pass a copy as these might still be needed
+                await self.func(set(inputs))
         except BaseException as e:  # noqa
             if self._waiting.cancel_requested:
                 raise
-- 
2.43.0


From ed5ecad3d0605a6bb2106e53a5c2377af4eca12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 19/22] fix: attributes of a function don't replace those of
 the buffer wrapping it

---
 aiuti/asyncio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 788edf9..8dbdfd0 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -556,7 +556,11 @@ def buffer_until_timeout(
     """
     if func is None:
         return partial(buffer_until_timeout, timeout=timeout)  # type: ignore
-    return wraps(func)(BufferAsyncCalls(func, timeout=timeout))  # type: ignore
+    buffer = BufferAsyncCalls(func, timeout=timeout)
+    attrs = vars(buffer).copy()
+    wraps(func)(buffer)  # type: ignore
+    vars(buffer).update(attrs)  # func could have attributes named alike
+    return buffer
 
 
 class BufferAsyncCalls(Generic[T]):
-- 
2.43.0


From ad95dd77a6face3b32c08451ad097e0ee0d89e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 20/22] fix: don't leak the descriptor of an acquire() which is
 interrupted while locking the file

---
 aiuti/filelock.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index e7b1339..b25ae30 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -267,6 +267,9 @@ class BaseFileLock(abc.ABC):
             self._lock(fd, block)
         except (IOError, OSError):
             os.close(fd)
+        except:  # noqa
+            os.close(fd)  # Interrupted or unsupported
+            raise
         else:
             self._lock_file_fd = fd
 
-- 
2.43.0


From 9f9ad41080f8586cbaee0e6832650172b0ee46ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 21/22] fix: timeouts of FileLock don't depend on the system
 clock being left alone

---
 aiuti/filelock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index b25ae30..f29cf08 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -150,7 +150,7 @@ class BaseFileLock(abc.ABC):
         if self.is_locked:
             return True
 
-        start_time = time.time()
+        start_time = time.monotonic()
 
         def _cleanup_thread_lock() -> None:
             self._decrement_lock_counter()
@@ -168,7 +168,7 @@ class BaseFileLock(abc.ABC):
                     _logger.debug('Failed to acquire lock %s on %s', lid, fn)
                     _cleanup_thread_lock()
                     return False
-                elif 0 <= timeout < time.time() - start_time:
+                elif 0 <= timeout < time.monotonic() - start_time:
                     _logger.debug('Timeout on acquiring lock %s on %s', lid, fn)
                     _cleanup_thread_lock()
                     return False
-- 
2.43.0


From 46e40fbb0dbf5804610e88f6ddac1d54c6e383bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 22/22] fix: a forked child doesn't hold (or release) the
 FileLocks of its parent

---
 aiuti/filelock.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index f29cf08..492babd 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -40,6 +40,7 @@ import time
 import logging
 import threading
 import contextlib
+from weakref import WeakSet
 from typing import Union, Optional, TypeVar, ClassVar, Any
 
 from .typing import Yields
@@ -61,6 +62,19 @@ PathLike = Union[str, 'os.PathLike[str]']
 FileLockT = TypeVar('FileLockT', bound='BaseFileLock')
 
 
+#: All lock objects of this process
+_LOCKS: 'WeakSet[BaseFileLock]' = WeakSet()
+
+
+def _after_fork_in_child() -> None:
+    for lock in tuple(_LOCKS):
+        lock._after_fork_in_child()
+
+
+if hasattr(os, 'register_at_fork'):  # Not on Windows
+    os.register_at_fork(after_in_child=_after_fork_in_child)
+
+
 class BaseFileLock(abc.ABC):
     """Abstract base class for a file lock."""
 
@@ -104,6 +118,8 @@ class BaseFileLock(abc.ABC):
         # falls to zero, the file lock can be released
         self._lock_counter: int = 0
 
+        _LOCKS.add(self)
+
     @property
     def lock_file(self) -> PathLike:
         """The path to the lock file."""
@@ -312,6 +328,20 @@ class BaseFileLock(abc.ABC):
         """
         self._lock_counter = max(0, self._lock_counter - 1)
 
+    def _after_fork_in_child(self) -> None:
+        """
+        A lock held by (a thread of) the parent process isn't held by
+        its forked child: Forget about it without releasing it.
+        """
+        fd, self._lock_file_fd = self._lock_file_fd, None
+        self._lock_counter = 0
+        if self._reentrant:
+            self._thread_lock = threading.RLock()
+        else:
+            self._thread_lock = threading.Lock()
+        if fd is not None:
+            os.close(fd)
+
     def __enter__(self: FileLockT) -> FileLockT:
         if not self.acquire():
             raise TimeoutError("Failed to acquire file lock:", self._lock_file)
-- 
2.43.0

