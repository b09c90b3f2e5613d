From 94cd5f53ea0af3e3c9039a495a6f1b46e8e0df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 01/63] fix: DummySemaphore no longer frees its name buffer
 twice

---
 a_sync/primitives/locks/semaphore.pyx | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index ea6f43d..36bf150 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -354,11 +354,6 @@ cdef class DummySemaphore(Semaphore):
         # Copy the bytes data into the char*
         strcpy(self._name, encoded_name)
 
-    def __dealloc__(self):
-        # Free the memory allocated for _name
-        if self._name is not NULL:
-            free(self._name)
-
     def __repr__(self) -> str:
         return "<{} name={}>".format(self.__class__.__name__, self.decode_name())
 
-- 
2.43.0


From f9eb05b2448c50e2e3ca8f4f99b40f6637af55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 02/63] fix: ThreadsafeSemaphore.semaphore returns the
 semaphore of the current thread

---
 a_sync/primitives/locks/semaphore.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 36bf150..828ba9e 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -434,6 +434,7 @@ cdef class ThreadsafeSemaphore(Semaphore):
                 async with semaphore.semaphore:
                     return 1
         """
+        return self.c_get_semaphore()
     
     cdef Semaphore c_get_semaphore(self):
         return self.dummy if self.use_dummy else self.semaphores[current_thread()]
-- 
2.43.0


From e76c97b995e4d02fc35a73968c16bcfaf82bab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 03/63] fix: Queue.get_multi and get_multi_nowait never drop or
 double count items

---
 a_sync/primitives/queue.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 33398b9..bc4a21f 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -199,11 +199,13 @@ class Queue(_Queue[T]):
         """
         _validate_args(i, can_return_less)
         items = []
-        while len(items) < i and not can_return_less:
+        while len(items) < i:
             try:
-                items.extend(self.get_multi_nowait(i - len(items), can_return_less=True))
+                items.append(self.get_nowait())
             except asyncio.QueueEmpty:
-                items = [await self.get()]
+                if items and can_return_less:
+                    break
+                items.append(await self.get())
         return items
 
     def get_multi_nowait(self, i: int, can_return_less: bool = False) -> List[T]:
@@ -222,18 +224,10 @@ class Queue(_Queue[T]):
             >>> print(tasks)
         """
         _validate_args(i, can_return_less)
-        items = []
-        for _ in range(i):
-            try:
-                items.append(self.get_nowait())
-            except asyncio.QueueEmpty:
-                if items and can_return_less:
-                    return items
-                # put these back in the queue since we didn't return them
-                for value in items:
-                    self.put_nowait(value)
-                raise asyncio.QueueEmpty from None
-        return items
+        available = self.qsize()
+        if available == 0 or (available < i and not can_return_less):
+            raise asyncio.QueueEmpty
+        return [self.get_nowait() for _ in range(min(i, available))]
 
 
 class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
-- 
2.43.0


From 011f74f5dba8213acad7f69507c2ba89ca23d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 04/63] fix: ProcessingQueue.put and SmartProcessingQueue.put
 enqueue the job once, with its own arguments

---
 a_sync/primitives/queue.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index bc4a21f..72f8574 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -389,12 +389,8 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
             >>> fut = await queue.put(item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        if self._no_futs:
-            return await super().put((args, kwargs))
-        fut = self._create_future()
-        await super().put((args, kwargs, fut))
-        return fut
+        # the queue is unbounded, putting never has to wait
+        return self.put_nowait(*args, **kwargs)
 
     def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
@@ -808,14 +804,8 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
             >>> fut = await queue.put(item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        key = self._get_key(*args, **kwargs)
-        if fut := self._futs.get(key, None):
-            return fut
-        fut = self._create_future(key)
-        self._futs[key] = fut
-        await Queue.put(self, (_SmartFutureRef(fut), args, kwargs))
-        return fut
+        # the queue is unbounded, putting never has to wait
+        return self.put_nowait(*args, **kwargs)
 
     def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> _smart.SmartFuture[V]:
         """
-- 
2.43.0


From d5581a582d21e5fca26cc528a623de9216580189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 05/63] fix: a ProcessingQueue worker survives a caller that
 drops the job's future

---
 a_sync/primitives/queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 72f8574..6bf603f 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -411,7 +411,7 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
         if self._no_futs:
             return super().put_nowait((args, kwargs))
         fut = self._create_future()
-        super().put_nowait((args, kwargs, weakref.proxy(fut)))
+        super().put_nowait((args, kwargs, fut))
         return fut
 
     def _create_future(self) -> "asyncio.Future[V]":
-- 
2.43.0


From 69fdb27015b7252c75aa16009c47184e03e1d187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 06/63] fix: PriorityProcessingQueue.put and put_nowait enqueue
 jobs, FIFO among equal priorities

---
 a_sync/primitives/queue.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 6bf603f..13a7dd2 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -16,6 +16,7 @@ See Also:
 import asyncio
 import functools
 import heapq
+import itertools
 import logging
 import sys
 import weakref
@@ -617,6 +618,11 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
         :class:`~ProcessingQueue`
     """
 
+    def _init(self, maxsize):
+        """Initializes the priority queue and the counter that orders jobs of equal priority."""
+        super()._init(maxsize)
+        self._counter = itertools.count()
+
     async def put(self, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
         Asynchronously adds a task with priority to the queue.
@@ -633,10 +639,8 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> fut = await queue.put(priority=1, item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        fut = asyncio.get_event_loop().create_future()
-        await super().put(self, (priority, args, kwargs, fut))
-        return fut
+        # the queue is unbounded, putting never has to wait
+        return self.put_nowait(priority, *args, **kwargs)
 
     def put_nowait(self, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
@@ -655,8 +659,9 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> print(await fut)
         """
         self._ensure_workers()
-        fut = self._create_future()
-        super().put_nowait(self, (priority, args, kwargs, fut))
+        fut = None if self._no_futs else self._create_future()
+        # the counter keeps jobs of equal priority in FIFO order and their args out of comparisons
+        _Queue.put_nowait(self, (priority, next(self._counter), args, kwargs, fut))
         return fut
 
     def _get(self, heappop=heapq.heappop):
@@ -670,8 +675,8 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> task = queue._get()
             >>> print(task)
         """
-        priority, args, kwargs, fut = heappop(self._queue)
-        return args, kwargs, fut
+        _, _, args, kwargs, fut = heappop(self._queue)
+        return (args, kwargs) if self._no_futs else (args, kwargs, fut)
 
 
 class _VariablePriorityQueueMixin(_PriorityQueueMixin[T]):
-- 
2.43.0


From 15b4095ebca9d7b9436cbce9de47dfdc34cff654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 07/63] fix: a cancelled job or one raising InvalidStateError
 no longer kills its ProcessingQueue worker

---
 a_sync/primitives/queue.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 13a7dd2..84cd698 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -481,24 +481,26 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                             self.task_done()
                             continue
                         result = await self.func(*args, **kwargs)
-                        fut.set_result(result)
-                    except asyncio.exceptions.InvalidStateError:
-                        logger.error(
-                            "cannot set result for %s %s: %s",
-                            self.func.__name__,
-                            fut,
-                            result,
-                        )
                     except Exception as e:
                         try:
                             fut.set_exception(e)
                         except asyncio.exceptions.InvalidStateError:
                             logger.error(
                                 "cannot set exception for %s %s: %s",
-                                self.func.__name__,
+                                self.func,
                                 fut,
                                 e,
                             )
+                    else:
+                        try:
+                            fut.set_result(result)
+                        except asyncio.exceptions.InvalidStateError:
+                            logger.error(
+                                "cannot set result for %s %s: %s",
+                                self.func,
+                                fut,
+                                result,
+                            )
                     self.task_done()
                 except Exception as e:
                     logger.error("%s for %s is broken!!!", type(self).__name__, self.func)
-- 
2.43.0


From 95e0f205fa9ea6a0506e4d7fc47e87d5a13d5a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 08/63] fix: persisted tasks are released once done and a
 cancelled one no longer breaks create_task

---
 a_sync/asyncio/create_task.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/a_sync/asyncio/create_task.pyx b/a_sync/asyncio/create_task.pyx
index 129c0a5..4f69d83 100644
--- a/a_sync/asyncio/create_task.pyx
+++ b/a_sync/asyncio/create_task.pyx
@@ -134,7 +134,10 @@ cdef void __prune_persisted_tasks():
     cdef object task
     cdef dict context
     for task in tuple(__persisted_tasks):
-        if task.done() and (e := task.exception()):
+        if not task.done():
+            continue
+        __persisted_tasks.discard(task)
+        if not task.cancelled() and (e := task.exception()):
             # force exceptions related to this lib to bubble up
             if not isinstance(e, exceptions.PersistedTaskException):
                 c_logger.exception(e)
@@ -149,7 +152,6 @@ cdef void __prune_persisted_tasks():
             if task._source_traceback:
                 context["source_traceback"] = task._source_traceback
             task._loop.call_exception_handler(context)
-            __persisted_tasks.discard(task)
 
 
 async def __persisted_task_exc_wrap(task: "asyncio.Task[T]") -> T:
-- 
2.43.0


From a796d2eab710dc4c98a2c7e2bba5b26f15756868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 09/63] fix: ASyncSorter with an async key yields async
 iterables too and never compares the items

---
 a_sync/iter.pyx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 94d9a09..e0ec602 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -5,6 +5,7 @@ import logging
 import sys
 import weakref
 from copy import deepcopy
+from operator import itemgetter
 from types import FunctionType
 from typing import _GenericAlias, get_args
 
@@ -751,11 +752,12 @@ class ASyncSorter(_ASyncView[T]):
                     sort_tasks.append(
                         ccreate_task_simple(self._function(obj))
                     )
-                for sort_value, obj in sorted(
-                    zip(await asyncio.gather(*sort_tasks), items),
-                    reverse=reverse,
-                ):
-                    yield obj
+            for sort_value, obj in sorted(
+                zip(await asyncio.gather(*sort_tasks), items),
+                key=itemgetter(0),
+                reverse=reverse,
+            ):
+                yield obj
         else:
             if self.__aiterator__:
                 items = [obj async for obj in self.__aiterator__]
-- 
2.43.0


From 452c8e850571372b8e3425be977be2e1328a83c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 10/63] fix: gather of a mapping omits excluded results instead
 of raising KeyError

---
 a_sync/asyncio/gather.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 9e523fb..1e35808 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -197,7 +197,7 @@ async def gather_mapping(
         if exclude_if is None or not exclude_if(v)
     }
     # return data in same order as input mapping
-    return {k: results[k] for k in mapping}
+    return {k: results[k] for k in mapping if k in results}
 
 cdef inline bint _is_mapping(object awaitables):
     return len(awaitables) == 1 and isinstance(awaitables[0], Mapping)
-- 
2.43.0


From f7498d9cfe5ba3ca47cf4d7cddd89e4d5c6e5f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 11/63] fix: an ASyncFuture can be awaited more than once
 concurrently

---
 a_sync/future.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index 91af653..f40598e 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -353,7 +353,10 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
 
     async def __await(self) -> T:
         if not self.done():
-            self.set_result(await self.__task__)
+            result = await self.__task__
+            # another awaiter may have set the result while we were waiting
+            if not self.done():
+                self.set_result(result)
         return self._result
 
     @property
-- 
2.43.0


From 64ec9ef634eec408fa1d1e27475aeda7d4c32ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 12/63] fix: ASyncFuture.__dependants__ and __dependencies__
 include nested ones

---
 a_sync/future.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index f40598e..dd98966 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -1285,7 +1285,7 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
         dependants = set()
         for dep in self.__dependants:
             dependants.add(dep)
-            dependants.union(dep.__dependants__)
+            dependants.update(dep.__dependants__)
         return dependants
 
     @property
@@ -1303,7 +1303,7 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
         dependencies = set()
         for dep in self.__dependencies:
             dependencies.add(dep)
-            dependencies.union(dep.__dependencies__)
+            dependencies.update(dep.__dependencies__)
         return dependencies
 
     def __sizeof__(self) -> int:
-- 
2.43.0


From 511966395d16305c534fd2fd0212baaf829cb270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:30 +0000
Subject: [PATCH 13/63] fix: as_completed honours a fractional timeout for
 mappings

---
 a_sync/asyncio/as_completed.pxd | 2 +-
 a_sync/asyncio/as_completed.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/asyncio/as_completed.pxd b/a_sync/asyncio/as_completed.pxd
index 7486941..7bb75af 100644
--- a/a_sync/asyncio/as_completed.pxd
+++ b/a_sync/asyncio/as_completed.pxd
@@ -1,6 +1,6 @@
 cdef object as_completed_mapping(
     object mapping,
-    unsigned int timeout,
+    object timeout,
     bint return_exceptions,
     bint aiter,
     bint tqdm,
diff --git a/a_sync/asyncio/as_completed.pyx b/a_sync/asyncio/as_completed.pyx
index d183b39..ed450c8 100644
--- a/a_sync/asyncio/as_completed.pyx
+++ b/a_sync/asyncio/as_completed.pyx
@@ -140,7 +140,7 @@ def as_completed(
 
 cdef object as_completed_mapping(
     object mapping,
-    unsigned int timeout,
+    object timeout,
     bint return_exceptions,
     bint aiter,
     bint tqdm,
-- 
2.43.0


From 1c2107c26fb60f27066210bb82d357184aa1387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:30 +0000
Subject: [PATCH 14/63] fix: priority 0 of a PrioritySemaphore is no longer
 mistaken for the top priority

---
 a_sync/primitives/locks/prio_semaphore.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 6a70681..00f35c1 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -500,7 +500,7 @@ cdef class PrioritySemaphore(_AbstractPrioritySemaphore):  # type: ignore [type-
             >>> semaphore = _AbstractPrioritySemaphore(5)
             >>> context_manager = semaphore[priority]
         """
-        return self.c_getitem(priority or -1)
+        return self.c_getitem(-1 if priority is None else priority)
     
     cdef object c_getitem(self, object priority):
         if self._Semaphore__value is None:
-- 
2.43.0


From eac31c3c79f05a3bf85929ed36bb388f69362952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:30 +0000
Subject: [PATCH 15/63] fix: PrioritySemaphore hands a freed permit to the best
 queued waiter instead of letting a newcomer take it

---
 a_sync/primitives/locks/prio_semaphore.pyx | 40 +++++++++++++---------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 00f35c1..b71fa50 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -234,6 +234,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
                 waiter = manager._Semaphore__waiters.popleft()
                 self._potential_lost_waiters.remove(waiter)
                 if not waiter.done():
+                    self._Semaphore__value -= 1
                     waiter.set_result(None)
                     woke_up = True
                     if debug_logs:
@@ -261,6 +262,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
             while self._potential_lost_waiters:
                 waiter = self._potential_lost_waiters.pop(0)
                 if not waiter.done():
+                    self._Semaphore__value -= 1
                     waiter.set_result(None)
                     return
             return
@@ -269,6 +271,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
             waiter = self._potential_lost_waiters.pop(0)
             c_logger._log(DEBUG, "we found a lost waiter %s", (waiter, ))
             if not waiter.done():
+                self._Semaphore__value -= 1
                 waiter.set_result(None)
                 c_logger._log(DEBUG, "woke up lost waiter %s", (waiter, ))
                 return
@@ -368,22 +371,27 @@ cdef class _AbstractPrioritySemaphoreContextManager(Semaphore):
         return self.__acquire()
     
     async def __acquire(self) -> Literal[True]:
-        cdef object loop, fut
-        while self._parent._Semaphore__value <= 0:
-            if self._Semaphore__waiters is None:
-                self._Semaphore__waiters = deque()
-            fut = self._c_get_loop().create_future()
-            self._Semaphore__waiters.append(fut)
-            self._parent._potential_lost_waiters.append(fut)
-            try:
-                await fut
-            except:
-                # See the similar code in Queue.get.
-                fut.cancel()
-                if self._parent._Semaphore__value > 0 and not fut.cancelled():
-                    self._parent._wake_up_next()
-                raise
-        self._parent._Semaphore__value -= 1
+        cdef object fut
+        cdef _AbstractPrioritySemaphoreContextManager manager
+        if self._parent._Semaphore__value > 0:
+            self._parent._Semaphore__value -= 1
+            return True
+
+        fut = self._c_get_loop().create_future()
+        # The parent may have discarded this manager since it was handed out,
+        # make sure we wait with a manager the parent knows about.
+        manager = self._parent.c_getitem(self._priority)
+        if manager._Semaphore__waiters is None:
+            manager._Semaphore__waiters = deque()
+        manager._Semaphore__waiters.append(fut)
+        self._parent._potential_lost_waiters.append(fut)
+        try:
+            await fut
+        except:
+            if not fut.cancel() and not fut.cancelled():
+                # we were already given a permit, hand it to the next waiter
+                self._parent.c_release()
+            raise
         return True
 
     cpdef void release(self):
-- 
2.43.0


From d5cb4a57a1d33669ea2b06a3ce394c046203bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 16/63] fix: Semaphore.acquire takes its permit when awaited,
 so a cancelled acquire task leaks none and a freed permit is not missed

---
 a_sync/primitives/locks/semaphore.pyx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 828ba9e..bcbb070 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -15,10 +15,6 @@ from a_sync._typing import *
 from a_sync.primitives._debug cimport _DebugDaemonMixin
 
 
-async def __acquire() -> Literal[True]:
-    return True
-
-
 cdef class Semaphore(_DebugDaemonMixin):
     """
     A semaphore with additional debugging capabilities inherited from :class:`_DebugDaemonMixin`.
@@ -199,13 +195,15 @@ cdef class Semaphore(_DebugDaemonMixin):
         if self._Semaphore__value <= 0:
             self._c_ensure_debug_daemon((),{})
 
-        if not self.c_locked():
-            self._Semaphore__value -= 1
-            return __acquire()
-
         return self.__acquire()
 
     async def __acquire(self) -> Literal[True]:
+        # The permit must not be taken before the coroutine runs: the caller
+        # might drop or cancel it first, and others might release meanwhile.
+        if not self.c_locked():
+            self._Semaphore__value -= 1
+            return True
+
         # Finally block should be called before the CancelledError
         # handling as we don't want CancelledError to call
         # _wake_up_first() and attempt to wake up itself.
-- 
2.43.0


From ca707d0940992200c8a4e478295f38933f2811f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 17/63] fix: DummySemaphore can decorate a coroutine function

---
 a_sync/primitives/locks/semaphore.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index bcbb070..3478791 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -328,7 +328,7 @@ cdef class DummySemaphore(Semaphore):
     def __cinit__(self):
         self._Semaphore__value = 0
         self._Semaphore__waiters = deque()
-        self._decorated = None
+        self._decorated = set()
 
     def __init__(self, name: Optional[str] = None):
         """
-- 
2.43.0


From 4585fa5b8713ace8d7f9f3fa6d7358c57f82e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 18/63] fix: PrioritySemaphore.locked no longer raises
 AttributeError once a manager exists

---
 a_sync/primitives/locks/prio_semaphore.pyx | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index b71fa50..28ea908 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -166,12 +166,11 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
         if self._Semaphore__value == 0:
             return True
         cdef dict[object, _AbstractPrioritySemaphoreContextManager] cms = self._context_managers
-        if not cms:
-            return False
-        return any(
-            cm._Semaphore__waiters and any(not w.cancelled() for w in cm._Semaphore__waiters)
-            for cm in cms.values()
-        )
+        for cm in cms.values():
+            for w in cm._Semaphore__waiters:
+                if not w.cancelled():
+                    return True
+        return False
 
     cdef dict[object, Py_ssize_t] _count_waiters(self):
         """Counts the number of waiters for each priority.
-- 
2.43.0


From 517844211cb6d385237fbadf3d0b74583eccd4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 19/63] fix: SmartProcessingQueue does not hand out a future
 that is already done or cancelled

---
 a_sync/_smart.py           | 4 +++-
 a_sync/primitives/queue.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index 80aa21a..736f919 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -142,7 +142,9 @@ class _SmartFutureMixin(Generic[T]):
         """
         self._waiters.clear()
         if queue := self._queue:
-            queue._futs.pop(self._key)
+            # a newer future might have taken the key already
+            if queue._futs.get(self._key) is self:
+                queue._futs.pop(self._key)
 
 
 class SmartFuture(_SmartFutureMixin[T], asyncio.Future):
diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 84cd698..50734e0 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -831,7 +831,9 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
         """
         self._ensure_workers()
         key = self._get_key(*args, **kwargs)
-        if fut := self._futs.get(key, None):
+        fut = self._futs.get(key, None)
+        # a future that is already done might not have been removed yet
+        if fut is not None and not fut.done():
             return fut
         fut = self._create_future(key)
         self._futs[key] = fut
-- 
2.43.0


From ce49f90c6e38f40b1c19d8b1a196e79d94ed6954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 20/63] fix: a cancelled shield no longer counts as a waiter of
 what it shielded

---
 a_sync/_smart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index 736f919..c0a47f2 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -435,6 +435,9 @@ def shield(
     def _outer_done_callback(outer):
         if not inner.done():
             inner.remove_done_callback(_inner_done_callback)
+            if waiters is not None:
+                # the shield does not wait for inner any longer
+                waiters.discard(outer)
 
     inner.add_done_callback(_inner_done_callback)
     outer.add_done_callback(_outer_done_callback)
-- 
2.43.0


From 457970e89efcbf014ca7209c52574b94b8bae3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 21/63] fix: a task that stopped awaiting a smart future
 without ending is no longer counted as its waiter

---
 a_sync/_smart.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index c0a47f2..12477f8 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -91,7 +91,12 @@ class _SmartFutureMixin(Generic[T]):
             )
 
         logger.debug("awaiting %s", self)
-        yield self  # This tells Task to wait for completion.
+        try:
+            yield self  # This tells Task to wait for completion.
+        finally:
+            # the task might go on without us, for instance after a timeout
+            if current_task:
+                self._waiters.discard(current_task)
         if not self.done():
             raise RuntimeError("await wasn't used with future")
         return self.result()  # May raise too.
@@ -115,7 +120,9 @@ class _SmartFutureMixin(Generic[T]):
         """
         if self.done():
             return 0
-        return sum(getattr(waiter, "num_waiters", 1) or 1 for waiter in self._waiters)
+        return sum(
+            getattr(waiter, "num_waiters", 1) or 1 for waiter in self._waiters if not waiter.done()
+        )
 
     def _waiter_done_cleanup_callback(
         self: Union["SmartFuture", "SmartTask"], waiter: "SmartTask"
@@ -132,7 +139,7 @@ class _SmartFutureMixin(Generic[T]):
             Automatically called when a waiter task completes.
         """
         if not self.done():
-            self._waiters.remove(waiter)
+            self._waiters.discard(waiter)
 
     def _self_done_cleanup_callback(self: Union["SmartFuture", "SmartTask"]) -> None:
         """
-- 
2.43.0


From 8457f2ce939ab293773c1a5fac27cd774f9d5be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 22/63] fix: loops with the smart task factory can create tasks
 with a context

---
 a_sync/_smart.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index 12477f8..199556b 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -288,6 +288,7 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
         *,
         loop: Optional[asyncio.AbstractEventLoop] = None,
         name: Optional[str] = None,
+        **kwargs: Any,
     ) -> None:
         """
         Initialize the SmartTask with a coroutine and optional event loop.
@@ -296,6 +297,7 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
             coro: The coroutine to run in the task.
             loop: Optional; the event loop.
             name: Optional; the name of the task.
+            **kwargs: Further keyword arguments of :class:`asyncio.Task`, for instance `context`.
 
         Example:
             ```python
@@ -305,12 +307,14 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
         See Also:
             - :func:`asyncio.create_task`
         """
-        asyncio.Task.__init__(self, coro, loop=loop, name=name)
+        asyncio.Task.__init__(self, coro, loop=loop, name=name, **kwargs)
         self._waiters: Set["asyncio.Task[T]"] = set()
         self.add_done_callback(SmartTask._self_done_cleanup_callback)
 
 
-def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> SmartTask[T]:
+def smart_task_factory(
+    loop: asyncio.AbstractEventLoop, coro: Awaitable[T], **kwargs: Any
+) -> SmartTask[T]:
     """
     Task factory function that an event loop calls to create new tasks.
 
@@ -319,6 +323,7 @@ def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> S
     Args:
         loop: The event loop.
         coro: The coroutine to run in the task.
+        **kwargs: Further keyword arguments the loop passes on, for instance `context`.
 
     Returns:
         A SmartTask instance running the provided coroutine.
@@ -335,7 +340,7 @@ def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> S
         - :func:`set_smart_task_factory`
         - :class:`SmartTask`
     """
-    return SmartTask(coro, loop=loop)
+    return SmartTask(coro, loop=loop, **kwargs)
 
 
 def set_smart_task_factory(loop: asyncio.AbstractEventLoop = None) -> None:
-- 
2.43.0


From 993c23ff2224412f62f9c45cc6d5867e7bfbf68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:52 +0000
Subject: [PATCH 23/63] fix: a TaskMapping starts one task per key when its
 iterables repeat a key or it was accessed already

---
 a_sync/task.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index da42f3d..125ebee 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -538,6 +538,9 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         self, *iterables: AnyIterableOrAwaitableIterable[K]
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
         """Ensure tasks are running for each key in the provided iterables."""
+        # a key might be repeated but gets just one task
+        started = set()
+
         # if we have any regular containers we can yield their contents right away
         containers = [
             iterable
@@ -546,12 +549,16 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         ]
         for iterable in containers:
             async for key in _yield_keys(iterable):
-                yield key, self[key]
+                if key not in started:
+                    started.add(key)
+                    yield key, self[key]
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
             try:
                 async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    yield key, self[key]  # ensure task is running
+                    if key not in started:
+                        started.add(key)
+                        yield key, self[key]  # ensure task is running
             except _EmptySequenceError:
                 if len(iterables) == 1:
                     raise
@@ -562,6 +569,9 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         self, *iterables: AnyIterableOrAwaitableIterable[K]
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
         """Start new tasks for each key in the provided iterables."""
+        # a key might be repeated but gets just one task
+        started = set()
+
         # if we have any regular containers we can yield their contents right away
         containers = [
             iterable
@@ -570,12 +580,16 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         ]
         for iterable in containers:
             async for key in _yield_keys(iterable):
-                yield key, self.__start_task(key)
+                if key not in started:
+                    started.add(key)
+                    yield key, self[key]
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
             try:
                 async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    yield key, self.__start_task(key)
+                    if key not in started:
+                        started.add(key)
+                        yield key, self[key]
             except _EmptySequenceError:
                 if len(iterables) == 1:
                     raise
-- 
2.43.0


From 6400636ad53c93fabb7324bd7377b5bd005653c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:52 +0000
Subject: [PATCH 24/63] fix: TaskMapping.map(pop=False) yields each key once

---
 a_sync/task.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 125ebee..233f9ba 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -317,13 +317,16 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 "You cannot pass `iterables` to map if the TaskMapping was initialized with an (a)iterable."
             )
 
+        yielded = set()
         try:
             if iterables:
                 self._raise_if_not_empty()
                 try:
                     async for _ in self._tasks_for_iterables(*iterables):
                         async for key, value in self.yield_completed(pop=pop):
-                            yield _yield(key, value, yields)
+                            if key not in yielded:
+                                yielded.add(key)
+                                yield _yield(key, value, yields)
                 except _EmptySequenceError:
                     if len(iterables) > 1:
                         # TODO gotta handle this situation
@@ -347,7 +350,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                         self.pop(key)
                         yield _yield(key, value, yields)
                 else:
-                    async for key, value in as_completed(self, aiter=True):
+                    unyielded = {key: task for key, task in dict.items(self) if key not in yielded}
+                    async for key, value in as_completed(unyielded, aiter=True):
                         yield _yield(key, value, yields)
         finally:
             await self._if_pop_clear(pop)
-- 
2.43.0


From c80b654d4105d07585c59a4980d4c372e242603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 25/63] fix: consuming TaskMapping views clear the mapping also
 when they fail or are left early

---
 a_sync/task.py | 65 ++++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 233f9ba..b4c7bf1 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -790,26 +790,27 @@ class TaskMappingKeys(_TaskMappingView[K, K, V], Generic[K, V]):
         # strongref
         mapping = self.__mapping__
         mapping._if_pop_check_destroyed(self._pop)
-        yielded = set()
-        for key in self.__load_existing():
-            yielded.add(key)
-            # there is no chance of duplicate keys here
-            yield key
-        if mapping._init_loader is None:
-            await mapping._if_pop_clear(self._pop)
-            return
-        async for key in self.__load_init_loader(yielded):
-            yielded.add(key)
-            yield key
-        if self._pop:
-            # don't need to check yielded since we've been popping them as we go
+        try:
+            yielded = set()
             for key in self.__load_existing():
+                yielded.add(key)
+                # there is no chance of duplicate keys here
                 yield key
-            await mapping._if_pop_clear(True)
-        else:
-            for key in self.__load_existing():
-                if key not in yielded:
+            if mapping._init_loader is None:
+                return
+            async for key in self.__load_init_loader(yielded):
+                yielded.add(key)
+                yield key
+            if self._pop:
+                # don't need to check yielded since we've been popping them as we go
+                for key in self.__load_existing():
                     yield key
+            else:
+                for key in self.__load_existing():
+                    if key not in yielded:
+                        yield key
+        finally:
+            await mapping._if_pop_clear(self._pop)
 
     def __load_existing(self) -> Iterator[K]:
         # strongref
@@ -851,12 +852,15 @@ class TaskMappingItems(_TaskMappingView[Tuple[K, V], K, V], Generic[K, V]):
         # strongref
         mapping = self.__mapping__
         mapping._if_pop_check_destroyed(self._pop)
-        if self._pop:
-            async for key in mapping.keys():
-                yield key, await mapping.pop(key)
-        else:
-            async for key in mapping.keys():
-                yield key, await mapping[key]
+        try:
+            if self._pop:
+                async for key in mapping.keys():
+                    yield key, await mapping.pop(key)
+            else:
+                async for key in mapping.keys():
+                    yield key, await mapping[key]
+        finally:
+            await mapping._if_pop_clear(self._pop)
 
 
 class TaskMappingValues(_TaskMappingView[V, K, V], Generic[K, V]):
@@ -870,12 +874,15 @@ class TaskMappingValues(_TaskMappingView[V, K, V], Generic[K, V]):
         # strongref
         mapping = self.__mapping__
         mapping._if_pop_check_destroyed(self._pop)
-        if self._pop:
-            async for key in mapping.keys():
-                yield await mapping.pop(key)
-        else:
-            async for key in mapping.keys():
-                yield await mapping[key]
+        try:
+            if self._pop:
+                async for key in mapping.keys():
+                    yield await mapping.pop(key)
+            else:
+                async for key in mapping.keys():
+                    yield await mapping[key]
+        finally:
+            await mapping._if_pop_clear(self._pop)
 
 
 __all__ = [
-- 
2.43.0


From a28a1913e79582fda9432164e6b13f4c6d883fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 26/63] fix: TaskMapping.max and min return None if that is the
 only result

---
 a_sync/task.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index b4c7bf1..95345b8 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -38,6 +38,8 @@ from a_sync.utils.iterators import as_yielded, exhaust_iterator
 logger = logging.getLogger(__name__)
 
 
+_NO_RESULT = object()
+
 MappingFn = Callable[Concatenate[K, P], Awaitable[V]]
 
 
@@ -382,28 +384,28 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
 
     @ASyncMethodDescriptorSyncDefault
     async def max(self, pop: bool = True) -> V:
-        max = None
+        max = _NO_RESULT
         try:
             async for key, result in self.__aiter__(pop=pop):
-                if max is None or result > max:
+                if max is _NO_RESULT or result > max:
                     max = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
-        if max is None:
+        if max is _NO_RESULT:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
         return max
 
     @ASyncMethodDescriptorSyncDefault
     async def min(self, pop: bool = True) -> V:
         """Return the minimum result from the tasks in the mapping."""
-        min = None
+        min = _NO_RESULT
         try:
             async for key, result in self.__aiter__(pop=pop):
-                if min is None or result < min:
+                if min is _NO_RESULT or result < min:
                     min = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
-        if min is None:
+        if min is _NO_RESULT:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
         return min
 
-- 
2.43.0


From 2821279ddbf6d6d66dc217efacec46983eb10713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:20 +0000
Subject: [PATCH 27/63] fix: as_yielded yields what a source produced before it
 or another source failed

---
 a_sync/utils/iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index 44e4da5..2000644 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -243,7 +243,8 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
 
     task.add_done_callback(_as_yielded_done_callback)
 
-    while not task.done():
+    # if a source failed the task is done but the queue may still hold what was yielded before
+    while not task.done() or not queue.empty():
         try:
             items = await queue.get_all()
         except asyncio.CancelledError:
-- 
2.43.0


From d50d738125f49fbd68fe76f595850be47a4d06aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:48 +0000
Subject: [PATCH 28/63] fix: a source that raises CancelledError no longer ends
 as_yielded or exhaust_iterators silently

---
 a_sync/utils/iterators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index 2000644..d1ffc10 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -84,7 +84,7 @@ async def exhaust_iterators(
         *[exhaust_iterator(iterator, queue=queue) for iterator in iterators],
         return_exceptions=True,
     ):
-        if isinstance(x, Exception):
+        if isinstance(x, BaseException):
             # raise it with its original traceback instead of from here
             raise x.with_traceback(x.__traceback__)
 
@@ -230,8 +230,8 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
 
     def _as_yielded_done_callback(t: asyncio.Task) -> None:
         if t.cancelled():
-            return
-        if e := t.exception():
+            queue.put_nowait(_Done(asyncio.CancelledError()))
+        elif e := t.exception():
             traceback.extract_stack
             traceback.clear_frames(e.__traceback__)
             queue.put_nowait(_Done(e))
-- 
2.43.0


From 544af15d12eb4227ea39e909cadefdd38f32a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 29/63] fix: an async generator method is found under its own
 class and name, also thru super() or when functions share a name

---
 a_sync/iter.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index e0ec602..2bbe6f6 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -520,6 +520,12 @@ class ASyncGeneratorFunction(Generic[P, T]):
             return self
 
         cdef object gen_func
+        if getattr(type(instance), self.field_name, None) is not self:
+            # We were accessed thru `super()` or under another name. `instance.__dict__`
+            # must not be used as it might hold, or shadow, another function of that name.
+            gen_func = ASyncGeneratorFunction(self.__wrapped__)
+            gen_func.__weakself__ = weakref.ref(instance)
+            return gen_func
         try:
             gen_func = instance.__dict__[self.field_name]
         except KeyError:
-- 
2.43.0


From 005301628e36af8a5250e3a0ab8132f6b04dbd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 30/63] fix: filters and sorters accept iterators that are
 falsy

---
 a_sync/iter.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 2bbe6f6..57ebdc6 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -620,11 +620,11 @@ class ASyncFilter(_ASyncView[T]):
 
     async def __anext__(self) -> T:
         cdef object obj
-        if self.__aiterator__:
+        if self.__aiterator__ is not None:
             async for obj in self.__aiterator__:
                 if await self._check(obj):
                     return obj
-        elif self.__iterator__:
+        elif self.__iterator__ is not None:
             try:
                 for obj in self.__iterator__:
                     if await self._check(obj):
@@ -746,13 +746,13 @@ class ASyncSorter(_ASyncView[T]):
         if asyncio.iscoroutinefunction(self._function):
             items = []
             sort_tasks = []
-            if self.__aiterator__:
+            if self.__aiterator__ is not None:
                 async for obj in self.__aiterator__:
                     items.append(obj)
                     sort_tasks.append(
                         ccreate_task_simple(self._function(obj))
                     )
-            elif self.__iterator__:
+            elif self.__iterator__ is not None:
                 for obj in self.__iterator__:
                     items.append(obj)
                     sort_tasks.append(
@@ -765,7 +765,7 @@ class ASyncSorter(_ASyncView[T]):
             ):
                 yield obj
         else:
-            if self.__aiterator__:
+            if self.__aiterator__ is not None:
                 items = [obj async for obj in self.__aiterator__]
             else:
                 items = list(self.__iterator__)
-- 
2.43.0


From 1487a397b85f2f31ef21517b289587e481feb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 31/63] fix: a sort key may be any async callable, ie an
 ASyncFunction

---
 a_sync/iter.pyx | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 57ebdc6..8a908ba 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -741,7 +741,7 @@ class ASyncSorter(_ASyncView[T]):
             An async iterator that will yield the sorted items.
         """
         cdef list items, sort_tasks
-        cdef object obj
+        cdef object obj, sort_values
 
         if asyncio.iscoroutinefunction(self._function):
             items = []
@@ -769,7 +769,19 @@ class ASyncSorter(_ASyncView[T]):
                 items = [obj async for obj in self.__aiterator__]
             else:
                 items = list(self.__iterator__)
-            items.sort(key=self._function, reverse=reverse)
+            if self._function is _key_if_no_key:
+                items.sort(reverse=reverse)
+            else:
+                sort_values = [self._function(obj) for obj in items]
+                if any(map(inspect.isawaitable, sort_values)):
+                    # an async callable that is not a coroutine function, ie an ASyncFunction
+                    sort_values = await asyncio.gather(*sort_values)
+                items = [
+                    obj
+                    for _, obj in sorted(
+                        zip(sort_values, items), key=itemgetter(0), reverse=reverse
+                    )
+                ]
             for obj in items:
                 yield obj
         self._consumed = True
-- 
2.43.0


From b9b03e0553b198efebd3cf7ca30e00bae4440cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 32/63] fix: a consumed ASyncSorter raises RuntimeError also if
 its key function has no name

---
 a_sync/iter.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 8a908ba..1f686a5 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -615,7 +615,7 @@ class ASyncFilter(_ASyncView[T]):
 
     def __repr__(self) -> str:
         return "<ASyncFilter for iterator={} function={} at {}>".format(
-            self.__wrapped__, self._function.__name__, hex(id(self))
+            self.__wrapped__, getattr(self._function, "__name__", self._function), hex(id(self))
         )
 
     async def __anext__(self) -> T:
@@ -723,7 +723,7 @@ class ASyncSorter(_ASyncView[T]):
             rep += " reversed"
         rep += " for iterator={}".format(self.__wrapped__)
         if self._function is not _key_if_no_key:
-            rep += " key={}".format(self._function.__name__)
+            rep += " key={}".format(getattr(self._function, "__name__", self._function))
         rep += " at {}>".format(hex(id(self)))
         return rep
 
-- 
2.43.0


From 7ee9b736d6fda33c4f0bee1ccf6714a759f712c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 33/63] fix: executors pass keyword arguments named fn or self
 on to the function

---
 a_sync/executor.py           | 6 +++---
 a_sync/primitives/_debug.pyx | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 90d687e..1552252 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -56,7 +56,7 @@ class _AsyncExecutorMixin(concurrent.futures.Executor, _DebugDaemonMixin):
 
     __slots__ = "_max_workers", "_initializer", "_initargs", "_broken", "_shutdown_lock"
 
-    async def run(self, fn: Callable[P, T], *args: P.args, **kwargs: P.kwargs):
+    async def run(self, fn: Callable[P, T], /, *args: P.args, **kwargs: P.kwargs):
         """
         A shorthand way to call `await asyncio.get_event_loop().run_in_executor(this_executor, fn, *args)`.
         Doesn't `await this_executor.run(fn, *args)` look so much better?
@@ -79,7 +79,7 @@ class _AsyncExecutorMixin(concurrent.futures.Executor, _DebugDaemonMixin):
         """
         return fn(*args, **kwargs) if self.sync_mode else await self.submit(fn, *args, **kwargs)
 
-    def submit(self, fn: Callable[P, T], *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[T]":  # type: ignore [override]
+    def submit(self, fn: Callable[P, T], /, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[T]":  # type: ignore [override]
         """
         Submits a job to the executor and returns an :class:`asyncio.Future` that can be awaited for the result without blocking.
 
@@ -135,7 +135,7 @@ class _AsyncExecutorMixin(concurrent.futures.Executor, _DebugDaemonMixin):
         """
         return len(getattr(self, f"_{self._workers}"))
 
-    async def _debug_daemon(self, fut: asyncio.Future, fn, *args, **kwargs) -> None:
+    async def _debug_daemon(self, fut: asyncio.Future, fn, /, *args, **kwargs) -> None:
         """
         Runs until manually cancelled by the finished work item.
 
diff --git a/a_sync/primitives/_debug.pyx b/a_sync/primitives/_debug.pyx
index 71213f5..f5fb005 100644
--- a/a_sync/primitives/_debug.pyx
+++ b/a_sync/primitives/_debug.pyx
@@ -100,7 +100,7 @@ cdef class _DebugDaemonMixin(_LoopBoundMixin):
         """
         raise NotImplementedError
 
-    def _start_debug_daemon(self, *args, **kwargs) -> "asyncio.Future[None]":
+    def _start_debug_daemon(self, /, *args, **kwargs) -> "asyncio.Future[None]":
         """
         Starts the debug daemon task if debug logging is enabled and the event loop is running.
 
-- 
2.43.0


From cb54c7fbbc7d4d41f8cd8aab25a70c1ec9b05d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 34/63] fix: a function is validated when decorated even if a
 collected one had the same id

---
 a_sync/a_sync/function.pyx | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 3360db9..e1df9a5 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -2,6 +2,7 @@ import functools
 import inspect
 import logging
 import sys
+import weakref
 
 from async_lru import _LRUCacheWrapper
 from async_property.base import AsyncPropertyDescriptor  # type: ignore [import]
@@ -120,13 +121,12 @@ cpdef void _validate_wrapped_fn(fn: Callable):
 
 cdef object _function_type = type(logging.getLogger)
 
-cdef set[Py_ssize_t] _argspec_validated = set()
+cdef object _argspec_validated = weakref.WeakSet()
 
 cdef void _validate_argspec_cached(fn: Callable):
-    cdef Py_ssize_t fid = id(fn)
-    if fid not in _argspec_validated:
+    if fn not in _argspec_validated:
         _validate_argspec(fn)
-        _argspec_validated.add(fid)
+        _argspec_validated.add(fn)
 
 cdef void _validate_argspec(fn: Callable):
     fn_args = inspect.getfullargspec(fn)[0]
@@ -971,13 +971,12 @@ class ASyncDecorator(_ModifiedMixin):
             return ASyncFunctionSyncDefault(func, **self.modifiers)
 
 
-cdef set[Py_ssize_t] _is_genfunc_cache = set()
+cdef object _is_genfunc_cache = weakref.WeakSet()
 
 cdef void _check_not_genfunc_cached(func: Callable):
-    cdef Py_ssize_t fid = id(func)
-    if fid not in _is_genfunc_cache:
+    if func not in _is_genfunc_cache:
         _check_not_genfunc(func)
-        _is_genfunc_cache.add(fid)
+        _is_genfunc_cache.add(func)
 
 cdef void _check_not_genfunc(func: Callable):
     """Raises an error if the function is a generator or async generator.
-- 
2.43.0


From d3ee5482e0e97c82732c08a3fac229d9399217fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 35/63] fix: a keyword-only parameter named like a flag is
 refused like any other

---
 a_sync/a_sync/function.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index e1df9a5..4b16f30 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -129,7 +129,8 @@ cdef void _validate_argspec_cached(fn: Callable):
         _argspec_validated.add(fn)
 
 cdef void _validate_argspec(fn: Callable):
-    fn_args = inspect.getfullargspec(fn)[0]
+    spec = inspect.getfullargspec(fn)
+    fn_args = spec.args + spec.kwonlyargs
     for flag in VIABLE_FLAGS:
         if flag in fn_args:
             raise RuntimeError(
-- 
2.43.0


From 4345d41e48839c977c86651ddb16d7f33f34f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 36/63] fix: an overridden method reached with super() is not
 the overriding one

---
 a_sync/a_sync/method.pxd   |  1 +
 a_sync/a_sync/method.pyx   | 37 ++++++++++++++++++++++++++++---------
 a_sync/a_sync/property.pyx |  9 +++++----
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/a_sync/a_sync/method.pxd b/a_sync/a_sync/method.pxd
index be064bd..26e7d29 100644
--- a/a_sync/a_sync/method.pxd
+++ b/a_sync/a_sync/method.pxd
@@ -1,2 +1,3 @@
 cdef bint _is_a_sync_instance(object instance)
+cdef str _get_cache_key(object descriptor, object instance)
 cdef void _update_cache_timer(str field_name, object instance, object bound)
\ No newline at end of file
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 1e3afe6..2da38e8 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -125,8 +125,9 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
         """
         if instance is None:
             return self
+        cdef str cache_key = _get_cache_key(self, instance)
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = instance.__dict__[cache_key]
         except KeyError:
             from a_sync.a_sync.abstract import ASyncABC
 
@@ -165,9 +166,9 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
                 bound = ASyncBoundMethod(
                     instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
                 )
-            instance.__dict__[self.field_name] = bound
+            instance.__dict__[cache_key] = bound
             c_logger.debug("new bound method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+        _update_cache_timer(cache_key, instance, bound)
         return bound
 
     def __set__(self, instance, value):
@@ -222,6 +223,22 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
         return asyncio.iscoroutinefunction(self.__wrapped__)
 
 
+cdef str _get_cache_key(object descriptor, object instance):
+    """
+    Get the key under which the method bound by a descriptor is cached in the instance's `__dict__`.
+
+    Args:
+        descriptor: The descriptor which binds the method.
+        instance: The instance the method is bound to.
+    """
+    cdef str field_name = descriptor.field_name
+    if getattr(type(instance), field_name, None) is descriptor:
+        return field_name
+    # `descriptor` is overridden in the instance's class and was accessed with `super()`,
+    # so `field_name` is the key of the overriding method
+    return f"{field_name}@{id(descriptor)}"
+
+
 cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMethod"):
     """
     Update the TTL for the cache handle for the instance.
@@ -315,15 +332,16 @@ class ASyncMethodDescriptorSyncDefault(ASyncMethodDescriptor[I, P, T]):
         """
         if instance is None:
             return self
+        cdef str cache_key = _get_cache_key(self, instance)
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = instance.__dict__[cache_key]
         except KeyError:
             bound = ASyncBoundMethodSyncDefault(
                 instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
             )
-            instance.__dict__[self.field_name] = bound
+            instance.__dict__[cache_key] = bound
             c_logger.debug("new bound method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+        _update_cache_timer(cache_key, instance, bound)
         return bound
 
 
@@ -399,16 +417,17 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
             return self
         
         cdef object bound
+        cdef str cache_key = _get_cache_key(self, instance)
 
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = instance.__dict__[cache_key]
         except KeyError:
             bound = ASyncBoundMethodAsyncDefault(
                 instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
             )
-            instance.__dict__[self.field_name] = bound
+            instance.__dict__[cache_key] = bound
             c_logger.debug("new bound method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+        _update_cache_timer(cache_key, instance, bound)
         return bound
 
 
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 4df298f..38d15fd 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -18,7 +18,7 @@ from a_sync.a_sync.method import (
     ASyncBoundMethodAsyncDefault,
     ASyncMethodDescriptorAsyncDefault,
 )
-from a_sync.a_sync.method cimport _is_a_sync_instance, _update_cache_timer
+from a_sync.a_sync.method cimport _get_cache_key, _is_a_sync_instance, _update_cache_timer
 from a_sync.asyncio.create_task cimport ccreate_task_simple
 
 if TYPE_CHECKING:
@@ -740,8 +740,9 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
             return self
     
         cdef object bound
+        cdef str cache_key = _get_cache_key(self, instance)
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = instance.__dict__[cache_key]
         except KeyError:
             bound = HiddenMethod(
                 instance,
@@ -750,9 +751,9 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
                 self.field_name,
                 **self.modifiers,
             )
-            instance.__dict__[self.field_name] = bound
+            instance.__dict__[cache_key] = bound
             c_logger.debug("new hidden method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+        _update_cache_timer(cache_key, instance, bound)
         return bound
 
 
-- 
2.43.0


From 91e3c16d392b5f306b820e31bb5d8d808682886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 37/63] fix: using a cached bound method does not delay the
 event loop's other timers

---
 a_sync/a_sync/method.pyx | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 2da38e8..f7abb45 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -250,13 +250,37 @@ cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMe
     # Handler for popping unused bound methods from bound method cache
     cdef object handle, loop
     if handle := bound._cache_handle:
-        # update the timer handle
-        handle._when = handle._loop.time() + _METHOD_CACHE_TTL
+        # the timer is running already and will see the new deadline when it fires
+        # NOTE: don't change `handle._when`, the event loop's heap of timers is sorted by it
+        bound._cache_deadline = handle._loop.time() + _METHOD_CACHE_TTL
     else:
         # create and assign the timer handle
         loop = get_event_loop()
-        # NOTE: use `instance.__dict__.pop` instead of `delattr` so we don't create a strong ref to `instance`
-        bound._cache_handle = loop.call_at(loop.time() + _METHOD_CACHE_TTL, instance.__dict__.pop, field_name)
+        bound._cache_deadline = loop.time() + _METHOD_CACHE_TTL
+        # NOTE: use `instance.__dict__` instead of `delattr` so we don't create a strong ref to `instance`
+        bound._cache_handle = loop.call_at(
+            bound._cache_deadline, _pop_unused, instance.__dict__, field_name, bound
+        )
+
+
+def _pop_unused(dict instance_dict, str field_name, object bound) -> None:
+    """
+    Pop a bound method from the bound method cache, unless it was used during the last 5 minutes.
+
+    Args:
+        instance_dict: The `__dict__` of the instance the method is bound to.
+        field_name: The key of the bound method.
+        bound: The bound method.
+    """
+    cdef object loop = bound._cache_handle._loop
+    if loop.time() < bound._cache_deadline:
+        bound._cache_handle = loop.call_at(
+            bound._cache_deadline, _pop_unused, instance_dict, field_name, bound
+        )
+        return
+    bound._cache_handle = None
+    if instance_dict.get(field_name) is bound:
+        del instance_dict[field_name]
 
 
 @final
@@ -508,6 +532,9 @@ class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
     _cache_handle: asyncio.TimerHandle = None
     """An asyncio handle used to pop the bound method from `instance.__dict__` 5 minutes after its last use."""
 
+    _cache_deadline: float = 0.0
+    """The time at which the bound method will have been unused for 5 minutes."""
+
     __weakself__: "weakref.ref[I]"
     """A weak reference to the instance the function is bound to."""
 
-- 
2.43.0


From bb1a47a5b231de565d78ad1bb46bc1f8acb8f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 38/63] fix: methods and properties can be used in a thread
 without an event loop

---
 a_sync/a_sync/method.pyx   | 12 ++++++++++--
 a_sync/a_sync/property.pyx |  5 +----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index f7abb45..261e8d0 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -249,13 +249,21 @@ cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMe
     """
     # Handler for popping unused bound methods from bound method cache
     cdef object handle, loop
-    if handle := bound._cache_handle:
+    handle = bound._cache_handle
+    if handle and not handle._loop.is_closed():
         # the timer is running already and will see the new deadline when it fires
         # NOTE: don't change `handle._when`, the event loop's heap of timers is sorted by it
         bound._cache_deadline = handle._loop.time() + _METHOD_CACHE_TTL
     else:
         # create and assign the timer handle
-        loop = get_event_loop()
+        try:
+            loop = get_event_loop()
+        except RuntimeError:
+            loop = None
+        if loop is None or loop.is_closed():
+            # this thread has no event loop to run a timer, the bound method stays
+            # cached until it is used where there is one or the instance is collected
+            return
         bound._cache_deadline = loop.time() + _METHOD_CACHE_TTL
         # NOTE: use `instance.__dict__` instead of `delattr` so we don't create a strong ref to `instance`
         bound._cache_handle = loop.call_at(
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 38d15fd..8225548 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -7,7 +7,7 @@ from typing_extensions import Unpack
 from a_sync import _smart
 from a_sync._typing import *
 from a_sync.a_sync import config
-from a_sync.a_sync._helpers cimport _asyncify, _await
+from a_sync.a_sync._helpers cimport _asyncify, _await, get_event_loop
 from a_sync.a_sync._descriptor import ASyncDescriptor
 from a_sync.a_sync.function import (
     ASyncFunction,
@@ -30,9 +30,6 @@ logger = getLogger(__name__)
 cdef object c_logger = logger
 
 
-cdef object get_event_loop = asyncio.get_event_loop
-
-
 class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
     """Base class for creating asynchronous properties.
 
-- 
2.43.0


From 9ef4f4587880934e91ef857f6bfbf926a553c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 39/63] fix: the mode of a class is not that of a collected one
 which had the same id

---
 a_sync/a_sync/base.pyx   | 15 +++++++++------
 a_sync/a_sync/method.pyx | 11 +++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 143dbf7..ee086ae 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -1,8 +1,8 @@
 import functools
 import inspect
+import weakref
 from contextlib import suppress
 from logging import DEBUG, getLogger
-from libc.stdint cimport uintptr_t
 
 from a_sync import exceptions
 from a_sync._typing import *
@@ -212,13 +212,16 @@ cdef inline bint _get_a_sync_flag_value_from_class_def(object cls, str flag):
     raise exceptions.FlagNotDefined(cls, flag)
 
 
-cdef dict[uintptr_t, object] _init_signature_cache = {}
+cdef object _init_signature_cache = weakref.WeakKeyDictionary()
 
 
 cdef _get_init_signature(object cls):
-    cdef uintptr_t cls_init_id = id(cls.__init__)
-    signature = _init_signature_cache.get(cls_init_id)
+    cdef object cls_init = cls.__init__
+    try:
+        signature = _init_signature_cache.get(cls_init)
+    except TypeError:  # not every callable is hashable and supports weak references
+        return inspect.signature(cls_init)
     if signature is None:
-        signature = inspect.signature(cls.__init__)
-        _init_signature_cache[cls_init_id] = signature
+        signature = inspect.signature(cls_init)
+        _init_signature_cache[cls_init] = signature
     return signature
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 261e8d0..49049e0 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -11,7 +11,6 @@ asynchronously based on various conditions and configurations.
 import functools
 import weakref
 from inspect import isawaitable
-from libc.stdint cimport uintptr_t
 from logging import DEBUG, getLogger
 
 from a_sync._typing import *
@@ -463,7 +462,7 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
         return bound
 
 
-cdef dict[uintptr_t, bint] _is_a_sync_instance_cache = {}
+cdef object _is_a_sync_instance_cache = weakref.WeakKeyDictionary()
 
 cdef bint _is_a_sync_instance(object instance):
     """Checks if an instance is an ASync instance.
@@ -475,12 +474,12 @@ cdef bint _is_a_sync_instance(object instance):
         A boolean indicating if the instance is an ASync instance.
     """
     cdef object instance_type = type(instance)
-    cdef uintptr_t instance_type_uid = id(instance_type)
-    if instance_type_uid in _is_a_sync_instance_cache:
-        return _is_a_sync_instance_cache[instance_type_uid]
+    cdef object cached = _is_a_sync_instance_cache.get(instance_type)
+    if cached is not None:
+        return cached
     from a_sync.a_sync.abstract import ASyncABC
     cdef bint is_a_sync = issubclass(instance_type, ASyncABC)
-    _is_a_sync_instance_cache[instance_type_uid] = is_a_sync
+    _is_a_sync_instance_cache[instance_type] = is_a_sync
     return is_a_sync
 
 
-- 
2.43.0


From 7fec4a03d793023fa35dc3eecea70d4196bb11dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 40/63] fix: properties defined with a sync function honour
 their modifiers

---
 a_sync/a_sync/property.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 8225548..39fb7ba 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -7,7 +7,7 @@ from typing_extensions import Unpack
 from a_sync import _smart
 from a_sync._typing import *
 from a_sync.a_sync import config
-from a_sync.a_sync._helpers cimport _asyncify, _await, get_event_loop
+from a_sync.a_sync._helpers cimport _await, get_event_loop
 from a_sync.a_sync._descriptor import ASyncDescriptor
 from a_sync.a_sync.function import (
     ASyncFunction,
@@ -85,7 +85,7 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
         if asyncio.iscoroutinefunction(_fget):
             self._fget = self.__wrapped__
         else:
-            self._fget = _asyncify(self.__wrapped__, self.modifiers.executor)
+            self._fget = self._asyncify(self.__wrapped__)
 
     @overload
     def __get__(self, instance: None, owner: Type[I]) -> Self: ...
-- 
2.43.0


From 3d08a687265a497735c5c7ae0fb21cba49a7a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 41/63] fix: the modifiers of methods and properties are
 applied once

---
 a_sync/a_sync/method.pyx   | 32 ++++++++++++++++++++++++--------
 a_sync/a_sync/property.pyx |  5 +++--
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 49049e0..f08adeb 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -17,6 +17,7 @@ from a_sync._typing import *
 from a_sync.a_sync._kwargs cimport get_flag_name, is_sync
 from a_sync.a_sync._descriptor import ASyncDescriptor
 from a_sync.a_sync._helpers cimport _await
+from a_sync.a_sync.config import null_modifiers
 from a_sync.a_sync.function import (
     ASyncFunction,
     ASyncFunctionAsyncDefault,
@@ -132,11 +133,11 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
 
             if self.default == "sync":
                 bound = ASyncBoundMethodSyncDefault(
-                    instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                    instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
                 )
             elif self.default == "async":
                 bound = ASyncBoundMethodAsyncDefault(
-                    instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                    instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
                 )
             elif isinstance(instance, ASyncABC):
                 try:
@@ -145,25 +146,25 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
                             instance,
                             self.__wrapped__,
                             self.__is_async_def__,
-                            **self.modifiers,
+                            **self._bound_modifiers,
                         )
                     else:
                         bound = ASyncBoundMethodAsyncDefault(
                             instance,
                             self.__wrapped__,
                             self.__is_async_def__,
-                            **self.modifiers,
+                            **self._bound_modifiers,
                         )
                 except AttributeError:
                     bound = ASyncBoundMethod(
                         instance,
                         self.__wrapped__,
                         self.__is_async_def__,
-                        **self.modifiers,
+                        **self._bound_modifiers,
                     )
             else:
                 bound = ASyncBoundMethod(
-                    instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                    instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
                 )
             instance.__dict__[cache_key] = bound
             c_logger.debug("new bound method: %s", bound)
@@ -221,6 +222,21 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
         """
         return asyncio.iscoroutinefunction(self.__wrapped__)
 
+    @functools.cached_property
+    def _bound_modifiers(self) -> ModifierKwargs:
+        """
+        The modifiers for the bound methods.
+
+        A bare coroutine function got its async modifiers when the descriptor was initialized.
+        They must not be applied to it again for each bound method.
+        """
+        if isinstance(self.__wrapped__, ASyncFunction) or not self.__is_async_def__:
+            return self.modifiers
+        modifiers = dict(null_modifiers)
+        modifiers["default"] = self.modifiers.default
+        modifiers["executor"] = self.modifiers.executor
+        return modifiers
+
 
 cdef str _get_cache_key(object descriptor, object instance):
     """
@@ -368,7 +384,7 @@ class ASyncMethodDescriptorSyncDefault(ASyncMethodDescriptor[I, P, T]):
             bound = instance.__dict__[cache_key]
         except KeyError:
             bound = ASyncBoundMethodSyncDefault(
-                instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
             )
             instance.__dict__[cache_key] = bound
             c_logger.debug("new bound method: %s", bound)
@@ -454,7 +470,7 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
             bound = instance.__dict__[cache_key]
         except KeyError:
             bound = ASyncBoundMethodAsyncDefault(
-                instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
             )
             instance.__dict__[cache_key] = bound
             c_logger.debug("new bound method: %s", bound)
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 39fb7ba..30a59a2 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -77,7 +77,8 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
         cdef dict hidden_modifiers
         super().__init__(_fget, field_name, **modifiers)
         self.hidden_method_name = f"__{self.field_name}__"
-        hidden_modifiers = dict(self.modifiers)
+        # NOTE: `self.get` gets all of the async modifiers from `self._fget`
+        hidden_modifiers = dict(config.null_modifiers)
         hidden_modifiers["default"] = "async"
         self.hidden_method_descriptor = HiddenMethodDescriptor(
             self.get, self.hidden_method_name, **hidden_modifiers
@@ -746,7 +747,7 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
                 self.__wrapped__,
                 self.__is_async_def__,
                 self.field_name,
-                **self.modifiers,
+                **self._bound_modifiers,
             )
             instance.__dict__[cache_key] = bound
             c_logger.debug("new hidden method: %s", bound)
-- 
2.43.0


From b55117d601e0fd68ea12c15e27d5746fab5286b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 42/63] fix: a failed or cancelled load of a cached property is
 not cached

---
 a_sync/a_sync/property.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 30a59a2..d74f10f 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -432,7 +432,10 @@ class ASyncCachedPropertyDescriptor(
         """
         instance_state = self.get_instance_state(instance)
         task = instance_state.lock[self.field_name]
-        if isinstance(task, asyncio.Lock):
+        if isinstance(task, asyncio.Lock) or (
+            # a failure is not cached
+            task.done() and (task.cancelled() or task.exception() is not None)
+        ):
             # default behavior uses lock but we want to use a Task so all waiters wake up together
             task = ccreate_task_simple(self._fget(instance))
             instance_state.lock[self.field_name] = task
-- 
2.43.0


From ed9cbf15733fec39e811fd955e47e78bec893df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 43/63] fix: a cached property is loaded once and never
 replaces a value set meanwhile

---
 a_sync/a_sync/property.pyx | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index d74f10f..98c91a7 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -421,6 +421,17 @@ class ASyncCachedPropertyDescriptor(
         self._fdel = _fdel
         """Optional deleter function for the property."""
 
+    def __set__(self, instance: I, value: T) -> None:
+        """Sets the cached value of the property.
+
+        Args:
+            instance: The instance for which the value is set.
+            value: The value to set.
+        """
+        super().__set__(instance, value)
+        # a value which is still being loaded must not replace this one later
+        self.pop_lock(instance)
+
     def get_lock(self, instance: I) -> "asyncio.Task[T]":
         """Retrieves the lock for the property.
 
@@ -461,14 +472,18 @@ class ASyncCachedPropertyDescriptor(
 
         @functools.wraps(self._fget)
         async def load_value():
+            if self.has_cache_value(instance):
+                # the value was loaded or set after this loader was created
+                return self.get_cache_value(instance)
             inner_task = self.get_lock(instance)
             try:
                 value = await _smart.shield(inner_task)
             except Exception as e:
                 e.args = *e.args, {"property": self, "instance": instance}
                 raise
-            self.__set__(instance, value)
-            self.pop_lock(instance)
+            # NOTE: only the first waiter sets the value, and only if it wasn't set by the user
+            if self.get_instance_state(instance).lock.get(self.field_name) is inner_task:
+                self.__set__(instance, value)
             return value
 
         return load_value
-- 
2.43.0


From dddbdd09611d4f4406309bbcb68e3aa7189fac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 44/63] fix: the setter and deleter of a cached property keep
 its default mode

---
 a_sync/a_sync/property.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 98c91a7..b6595e0 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -505,7 +505,7 @@ class ASyncCachedPropertyDescriptorSyncDefault(cached_property[I, T]):
         You should never create these yourself. They are automatically generated by ez-a-sync internally.
     """
 
-    default: Literal["sync"]
+    default = "sync"
 
     @overload
     def __get__(self, instance: None, owner: Type[I]) -> Self: ...
@@ -536,7 +536,7 @@ class ASyncCachedPropertyDescriptorAsyncDefault(cached_property[I, T]):
         You should never create these yourself. They are automatically generated by ez-a-sync internally.
     """
 
-    default: Literal["async"]
+    default = "async"
 
 
 ASyncCachedPropertyDecorator = Callable[
-- 
2.43.0


From 1e5b69d0661a4f477574bafcb672bdbe9bf38f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 45/63] fix: an overridden cached property reached with super()
 has a cache of its own

---
 a_sync/a_sync/property.pyx | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index b6595e0..426a28d 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -442,23 +442,40 @@ class ASyncCachedPropertyDescriptor(
             An asyncio Task representing the lock.
         """
         instance_state = self.get_instance_state(instance)
-        task = instance_state.lock[self.field_name]
+        cache_key = _get_cache_key(self, instance)
+        task = instance_state.lock[cache_key]
         if isinstance(task, asyncio.Lock) or (
             # a failure is not cached
             task.done() and (task.cancelled() or task.exception() is not None)
         ):
             # default behavior uses lock but we want to use a Task so all waiters wake up together
             task = ccreate_task_simple(self._fget(instance))
-            instance_state.lock[self.field_name] = task
+            instance_state.lock[cache_key] = task
         return task
 
+    def has_cache_value(self, instance: I) -> bool:
+        """Checks if the value of the property is cached for an instance."""
+        return _get_cache_key(self, instance) in self.get_cache(instance)
+
+    def get_cache_value(self, instance: I) -> T:
+        """Retrieves the cached value of the property for an instance."""
+        return self.get_cache(instance)[_get_cache_key(self, instance)]
+
+    def set_cache_value(self, instance: I, value: T) -> None:
+        """Caches the value of the property for an instance."""
+        self.get_cache(instance)[_get_cache_key(self, instance)] = value
+
+    def del_cache_value(self, instance: I) -> None:
+        """Removes the cached value of the property for an instance."""
+        del self.get_cache(instance)[_get_cache_key(self, instance)]
+
     def pop_lock(self, instance: I) -> None:
         """Removes the lock for the property.
 
         Args:
             instance: The instance from which the property is accessed.
         """
-        self.get_instance_state(instance).lock.pop(self.field_name, None)
+        self.get_instance_state(instance).lock.pop(_get_cache_key(self, instance), None)
 
     def get_loader(self, instance: I) -> Callable[[], T]:
         """Retrieves the loader function for the property.
@@ -470,6 +487,8 @@ class ASyncCachedPropertyDescriptor(
             A callable that loads the property value.
         """
 
+        cache_key = _get_cache_key(self, instance)
+
         @functools.wraps(self._fget)
         async def load_value():
             if self.has_cache_value(instance):
@@ -482,7 +501,7 @@ class ASyncCachedPropertyDescriptor(
                 e.args = *e.args, {"property": self, "instance": instance}
                 raise
             # NOTE: only the first waiter sets the value, and only if it wasn't set by the user
-            if self.get_instance_state(instance).lock.get(self.field_name) is inner_task:
+            if self.get_instance_state(instance).lock.get(cache_key) is inner_task:
                 self.__set__(instance, value)
             return value
 
-- 
2.43.0


From 60c9bdf3fa3d1c2b897062f64aa07ea5bfe0920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 46/63] fix: a class inherits the flag of an indirect base
 class too

---
 a_sync/a_sync/base.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index ee086ae..6d3bc16 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -143,7 +143,7 @@ cdef str _get_a_sync_flag_name_from_class_def(object cls):
         return _parse_flag_name_from_list(cls, cls.__dict__)  # type: ignore [arg-type]
         # idk why __dict__ doesn't type check as a dict
     except exceptions.NoFlagsFound:
-        for base in cls.__bases__:
+        for base in cls.__mro__[1:]:
             with suppress(exceptions.NoFlagsFound):
                 return _parse_flag_name_from_list(cls, base.__dict__)  # type: ignore [arg-type]
                 # idk why __dict__ doesn't type check as a dict
@@ -206,7 +206,7 @@ cdef str _parse_flag_name_from_list(object cls, object items):
 
 cdef inline bint _get_a_sync_flag_value_from_class_def(object cls, str flag):
     cdef object spec
-    for spec in [cls, *cls.__bases__]:
+    for spec in cls.__mro__:
         if flag in spec.__dict__:
             return spec.__dict__[flag]
     raise exceptions.FlagNotDefined(cls, flag)
-- 
2.43.0


From 37706c3d6c49fa09d41157796d6345d93c9d7f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 47/63] fix: a singleton's __init__ can create the instance
 with the other mode

---
 a_sync/a_sync/_meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/_meta.py b/a_sync/a_sync/_meta.py
index 113b263..1b505c1 100644
--- a/a_sync/a_sync/_meta.py
+++ b/a_sync/a_sync/_meta.py
@@ -177,8 +177,8 @@ class ASyncSingletonMeta(ASyncMeta):
     def __init__(cls, name: str, bases: Tuple[type, ...], namespace: Dict[str, Any]) -> None:
         cls.__instances: Dict[bool, object] = {}
         """Dictionary to store singleton instances."""
-        cls.__lock = threading.Lock()
-        """Lock to ensure thread-safe instance creation."""
+        cls.__lock = threading.RLock()
+        """Lock to ensure thread-safe instance creation. An instance may create its counterpart with the other mode."""
         super().__init__(name, bases, namespace)
 
     def __call__(cls, *args: Any, **kwargs: Any):
-- 
2.43.0


From 85e17424b8b72c5d8beae49006d62b462a5afe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 48/63] fix: a pruning executor keeps an idle thread which a
 submitted call counts on

---
 a_sync/executor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 1552252..5f2d881 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -321,12 +321,12 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
 
                 with executor._adjusting_lock:  # NOTE: NEW
                     # NOTE: We keep a minimum of one thread active to prevent locks
-                    if len(executor) > 1:  # NOTE: NEW
+                    # NOTE: If there is no idle thread to account for, a work item was submitted meanwhile
+                    #       and counts on this thread, so it has to stay and run it.
+                    if len(executor) > 1 and executor._idle_semaphore.acquire(blocking=False):
                         t = threading.current_thread()  # NOTE: NEW
                         executor._threads.remove(t)  # NOTE: NEW
                         thread._threads_queues.pop(t)  # NOTE: NEW
-                        # Let the executor know we have one less idle thread available
-                        executor._idle_semaphore.acquire(blocking=False)  # NOTE: NEW
                         return  # NOTE: NEW
                 continue
 
-- 
2.43.0


From 461472148f3db75f6f5f0bac223925ed9bf50720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 49/63] fix: shutdown of a pruning executor fails when an idle
 thread is pruned meanwhile

---
 a_sync/executor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 5f2d881..3eabfee 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -325,7 +325,8 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                     #       and counts on this thread, so it has to stay and run it.
                     if len(executor) > 1 and executor._idle_semaphore.acquire(blocking=False):
                         t = threading.current_thread()  # NOTE: NEW
-                        executor._threads.remove(t)  # NOTE: NEW
+                        # NOTE: don't change the set itself, `shutdown` could be iterating over it
+                        executor._threads = executor._threads - {t}  # NOTE: NEW
                         thread._threads_queues.pop(t)  # NOTE: NEW
                         return  # NOTE: NEW
                 continue
-- 
2.43.0


From da35363951d102ece6e25716d250859f15a3b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 50/63] fix: a pruning executor does not start threads again
 after a backlog

---
 a_sync/executor.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 3eabfee..f1efc07 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -339,7 +339,12 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                 # attempt to increment idle count
                 executor = executor_reference()
                 if executor is not None:
-                    executor._idle_semaphore.release()
+                    with executor._adjusting_lock:
+                        if executor._backlog:
+                            # a work item that was submitted when all threads were busy counts on this thread
+                            executor._backlog -= 1
+                        else:
+                            executor._idle_semaphore.release()
                 del executor
                 continue
 
@@ -376,7 +381,7 @@ class PruningThreadPoolExecutor(AsyncThreadPoolExecutor):
         >>> result = await future
     """
 
-    __slots__ = "_timeout", "_adjusting_lock"
+    __slots__ = "_timeout", "_adjusting_lock", "_backlog"
 
     def __init__(
         self,
@@ -408,6 +413,9 @@ class PruningThreadPoolExecutor(AsyncThreadPoolExecutor):
         self._adjusting_lock = threading.Lock()
         """Lock used to adjust the number of threads."""
 
+        self._backlog = 0
+        """Number of work items which were submitted when all threads were busy and no thread accounts for yet."""
+
         super().__init__(max_workers, thread_name_prefix, initializer, initargs)
 
     def __len__(self) -> int:
@@ -448,6 +456,8 @@ class PruningThreadPoolExecutor(AsyncThreadPoolExecutor):
                 t.start()
                 self._threads.add(t)
                 thread._threads_queues[t] = self._work_queue
+            else:
+                self._backlog += 1
 
 
 executor = PruningThreadPoolExecutor(128)
-- 
2.43.0


From 8868e649fda2851478e1ace12d37d4edbe86d3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 51/63] fix: materialising an ASyncFuture refuses with a
 RuntimeError, keeps the failure and uses a known result

str(meta) in the message materialised the future again without end, a RuntimeError
raised by the awaitable itself was taken for a running loop, and a future that had
been awaited was refused all the same.
---
 a_sync/future.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index dd98966..8403021 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -126,12 +126,16 @@ def _materialize(meta: "ASyncFuture[T]") -> T:
     See Also:
         :class:`ASyncFuture`
     """
-    try:
-        return asyncio.get_event_loop().run_until_complete(meta)
-    except RuntimeError as e:
+    if meta.done():
+        # NOTE: look past the `result` property, which forwards to an attribute of the result
+        return concurrent.futures.Future.result(meta)
+    loop = asyncio.get_event_loop()
+    if loop.is_running():
+        # NOTE: `str(meta)` would materialize `meta` once more
         raise RuntimeError(
-            f"{meta} result is not set and the event loop is running, you will need to await it first"
-        ) from e
+            f"{meta!r} result is not set and the event loop is running, you will need to await it first"
+        )
+    return loop.run_until_complete(meta)
 
 
 MetaNumeric = Union[Numeric, "ASyncFuture[int]", "ASyncFuture[float]", "ASyncFuture[Decimal]"]
-- 
2.43.0


From d2a96e2ebc1e71e5d39d6f35ca3ddb09886d4f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 52/63] fix: a future-decorated method can be called through
 its class

---
 a_sync/future.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index 8403021..7b97800 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -1375,7 +1375,7 @@ class _ASyncFutureWrappedFn(Callable[P, ASyncFuture[T]]):
     def __get__(
         self, instance: I, owner: Type[I]
     ) -> Union[Self, "_ASyncFutureInstanceMethod[I, P, T]"]:
-        return self if owner is None else _ASyncFutureInstanceMethod(self, instance)
+        return self if instance is None else _ASyncFutureInstanceMethod(self, instance)
 
 
 @final
-- 
2.43.0


From 02ec63c82021a9ec23f4ac506cf5b5c199a61ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 53/63] fix: an Event can be created where there is no event
 loop

after asyncio.run, or in a thread without a loop; the loop was looked up for
python < 3.10 only but the lookup ran on every version.
---
 a_sync/primitives/locks/event.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/locks/event.pyx b/a_sync/primitives/locks/event.pyx
index 4179b69..dc298f3 100644
--- a/a_sync/primitives/locks/event.pyx
+++ b/a_sync/primitives/locks/event.pyx
@@ -52,7 +52,7 @@ cdef class CythonEvent(_DebugDaemonMixin):
             super().__init__(loop=loop)
 
         # backwards compatability
-        if hasattr(self, "_loop"):
+        if sys.version_info < (3, 10) and hasattr(self, "_loop"):
             self._loop = self._loop or asyncio.get_event_loop()
         if debug_daemon_interval > 65535:
             raise ValueError(f"'debug_daemon_interval' is stored as a uint16 and must be less than 65535")
-- 
2.43.0


From 785fe10753f6f1a1ed81151975ce7a2b7346f4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 54/63] fix: priorities of a PrioritySemaphore are not
 truncated to C integers

---
 a_sync/primitives/locks/prio_semaphore.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 28ea908..54db0d5 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -444,7 +444,7 @@ cdef class _PrioritySemaphoreContextManager(_AbstractPrioritySemaphoreContextMan
         """
         if other.__class__ is not self.__class__:
             raise TypeError(f"{other} is not type {self.__class__.__name__}")
-        return <int>self._priority < <int>other._priority
+        return self._priority < other._priority
 
 cdef class PrioritySemaphore(_AbstractPrioritySemaphore):  # type: ignore [type-var]
     """Semaphore that uses numeric priorities for waiters.
@@ -515,13 +515,13 @@ cdef class PrioritySemaphore(_AbstractPrioritySemaphore):  # type: ignore [type-
         
         cdef _PrioritySemaphoreContextManager context_manager
 
-        cdef dict[int, _PrioritySemaphoreContextManager] context_managers = self._context_managers
-        if <int>priority not in context_managers:
-            context_manager = _PrioritySemaphoreContextManager(self, <int>priority, name=self.name)
+        cdef dict[object, _PrioritySemaphoreContextManager] context_managers = self._context_managers
+        if priority not in context_managers:
+            context_manager = _PrioritySemaphoreContextManager(self, priority, name=self.name)
             heappush(
                 <list[_PrioritySemaphoreContextManager]>self._Semaphore__waiters,
                 context_manager,
             )  # type: ignore [misc]
-            context_managers[<int>priority] = context_manager
+            context_managers[priority] = context_manager
             return context_manager
-        return context_managers[<int>priority]
\ No newline at end of file
+        return context_managers[priority]
\ No newline at end of file
-- 
2.43.0


From c6e2d537ea0dfa0551f3e030f59481b6b04f1843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 55/63] fix: singletons can be created with debug logging on

---
 a_sync/a_sync/abstract.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/abstract.pyx b/a_sync/a_sync/abstract.pyx
index e4983b4..c427832 100644
--- a/a_sync/a_sync/abstract.pyx
+++ b/a_sync/a_sync/abstract.pyx
@@ -172,7 +172,8 @@ class ASyncABC(metaclass=ASyncMeta):
         if not flag:
             c_logger._log(
                 DEBUG,
-                "No valid flags found in kwargs, checking class definition for defined default"
+                "No valid flags found in kwargs, checking class definition for defined default",
+                (),
             )
             return cls.__a_sync_default_mode__()  # type: ignore [arg-type]
 
-- 
2.43.0


From 6d15a0ff1ae1fd903e41b903dcc4e87d178d66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 56/63] fix: methods of sync instances and methods with default
 sync can be mapped

---
 a_sync/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 95345b8..5cc5dd6 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -143,9 +143,9 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         self._wrapped_func = wrapped_func
         "The function used to create tasks for each key."
 
-        if isinstance(wrapped_func, ASyncMethodDescriptor) and not _kwargs.get_flag_name_legacy(
-            wrapped_func_kwargs
-        ):
+        if isinstance(
+            wrapped_func, (ASyncBoundMethod, ASyncMethodDescriptor)
+        ) and not _kwargs.get_flag_name_legacy(wrapped_func_kwargs):
             wrapped_func_kwargs["sync"] = False
         if wrapped_func_kwargs:
             self._wrapped_func_kwargs = wrapped_func_kwargs
-- 
2.43.0


From 5f2e31990f88dfc3ca4583e83fda18d6edb530bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 57/63] fix: a TaskMapping reports a TypeError raised by a
 callable without a name

---
 a_sync/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 5cc5dd6..3d3abc6 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -166,8 +166,11 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     e.args = *e.args, f"wrapped:{self.__wrapped__}"
                     raise
                 except TypeError as e:
+                    # NOTE: partials and callable objects have no __name__
+                    name = getattr(wrapped_func, "__name__", None)
                     if __a_sync_recursion > 2 or not (
-                        str(e).startswith(wrapped_func.__name__)
+                        name is not None
+                        and str(e).startswith(name)
                         and "got multiple values for argument" in str(e)
                     ):
                         raise
-- 
2.43.0


From 045b6f75a29bb5eecc12c6e7e51d0a4c1ce553dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 58/63] fix: iterables can be iterated in a thread without an
 event loop

---
 a_sync/iter.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 1f686a5..bc90f57 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -12,7 +12,7 @@ from typing import _GenericAlias, get_args
 from async_property import async_cached_property
 
 from a_sync._typing import *
-from a_sync.a_sync._helpers cimport _await
+from a_sync.a_sync._helpers cimport _await, get_event_loop
 from a_sync.asyncio.create_task cimport ccreate_task_simple
 from a_sync.exceptions import SyncModeInAsyncContextError
 
@@ -30,7 +30,6 @@ else:
 cdef tuple[str] _FORMAT_PATTERNS = ("{cls}", "{obj}")
 
 
-cdef object get_event_loop = asyncio.get_event_loop
 
 
 class _AwaitableAsyncIterableMixin(AsyncIterable[T]):
-- 
2.43.0


From ad2b637a401c13fe5f604488e2af188f71c88c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 59/63] fix: an ASyncFuture can be materialised in a thread
 without an event loop

---
 a_sync/future.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index 7b97800..cb2e1cc 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -129,7 +129,7 @@ def _materialize(meta: "ASyncFuture[T]") -> T:
     if meta.done():
         # NOTE: look past the `result` property, which forwards to an attribute of the result
         return concurrent.futures.Future.result(meta)
-    loop = asyncio.get_event_loop()
+    loop = a_sync.asyncio.get_event_loop()
     if loop.is_running():
         # NOTE: `str(meta)` would materialize `meta` once more
         raise RuntimeError(
-- 
2.43.0


From 9ba5fc05ccfd44194a2a08df345caf5692e29588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 60/63] fix: a source may fail after the consumer of as_yielded
 was cancelled

---
 a_sync/utils/iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index d1ffc10..a886651 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -249,8 +249,8 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
             items = await queue.get_all()
         except asyncio.CancelledError:
             # cleanup lingering objects and reraise
+            # the done callback still needs the queue
             del task
-            del queue
             raise
         for item in items:
             queue.task_done()
-- 
2.43.0


From 8a0fc25f59ba338c069ae480a6259aad85563fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 61/63] fix: the sum of a TaskMapping does not modify the
 results

---
 a_sync/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 3d3abc6..55d3bb9 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -418,7 +418,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         retval = 0
         try:
             async for key, result in self.__aiter__(pop=pop):
-                retval += result
+                # not in place, it may be one of the results
+                retval = retval + result
         except _EmptySequenceError:
             return 0
         return retval
-- 
2.43.0


From 3922bd0081e8a435c3eaf1094008e3d4444c09c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 62/63] fix: a falsy callable can be the key of ASyncSorter

---
 a_sync/iter.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index bc90f57..000ba99 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -696,7 +696,7 @@ class ASyncSorter(_ASyncView[T]):
             key (optional): A function of one argument that is used to extract a comparison key from each list element. If none is provided, elements themselves will be sorted. Defaults to None.
             reverse (optional): If True, the list elements will be sorted in reverse order. Defaults to False.
         """
-        super().__init__(key or _key_if_no_key, iterable)
+        super().__init__(_key_if_no_key if key is None else key, iterable)
         self.__internal = self.__sort(reverse=reverse).__aiter__()
         if reverse:
             self.reversed = True
-- 
2.43.0


From c4468eb07d56c045327bed14bd3e7f4f3763b00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 63/63] fix: async iteration of a TaskMapping is woken by tasks
 which are cancelled before they start

---
 a_sync/task.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/a_sync/task.py b/a_sync/task.py
index 55d3bb9..33f2297 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -645,8 +645,15 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 name=f"{self._name}[{item}]" if self._name else f"{item}",
             )
         dict.__setitem__(self, item, fut)
+        if self._next is not None:
+            # NOTE: a task which is cancelled before it starts never gets to wake up whoever waits for the next result
+            fut.add_done_callback(self.__wake)
         return fut
 
+    def __wake(self, fut: "asyncio.Future[V]") -> None:
+        self._next.set()
+        self._next.clear()
+
     def __cleanup(self, t: "asyncio.Task[None]") -> None:
         # clear the slot and let the bound Queue die
         del self.__init_loader_coro
-- 
2.43.0

