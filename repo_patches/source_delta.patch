From c6d43b553e28de81b7c5458d51a2e3eac44ce5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 01/72] fix: take the semaphore permit when the acquire
 coroutine runs, not when it is created

---
 a_sync/primitives/locks/semaphore.pyx | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index ea6f43d..339c8dc 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -15,10 +15,6 @@ from a_sync._typing import *
 from a_sync.primitives._debug cimport _DebugDaemonMixin
 
 
-async def __acquire() -> Literal[True]:
-    return True
-
-
 cdef class Semaphore(_DebugDaemonMixin):
     """
     A semaphore with additional debugging capabilities inherited from :class:`_DebugDaemonMixin`.
@@ -199,13 +195,16 @@ cdef class Semaphore(_DebugDaemonMixin):
         if self._Semaphore__value <= 0:
             self._c_ensure_debug_daemon((),{})
 
-        if not self.c_locked():
-            self._Semaphore__value -= 1
-            return __acquire()
-
         return self.__acquire()
 
     async def __acquire(self) -> Literal[True]:
+        # The permit must be taken when the coroutine runs, not when it is created. Otherwise a
+        # coroutine that never starts leaks a permit, and a release between the coroutine's creation
+        # and its first step is missed.
+        if not self.c_locked():
+            self._Semaphore__value -= 1
+            return True
+
         # Finally block should be called before the CancelledError
         # handling as we don't want CancelledError to call
         # _wake_up_first() and attempt to wake up itself.
-- 
2.43.0


From dea40c3cf11206bbb81d4dcc517873c7a469e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 02/72] fix: do not free the name of a DummySemaphore twice

---
 a_sync/primitives/locks/semaphore.pyx | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 339c8dc..43d6c8a 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -353,11 +353,6 @@ cdef class DummySemaphore(Semaphore):
         # Copy the bytes data into the char*
         strcpy(self._name, encoded_name)
 
-    def __dealloc__(self):
-        # Free the memory allocated for _name
-        if self._name is not NULL:
-            free(self._name)
-
     def __repr__(self) -> str:
         return "<{} name={}>".format(self.__class__.__name__, self.decode_name())
 
-- 
2.43.0


From 1c7841a8dbd8687d5ad618b6807980c3431436cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 03/72] fix: len() and repr() of a ThreadsafeSemaphore no
 longer raise TypeError

---
 a_sync/primitives/locks/semaphore.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 43d6c8a..9bf17b4 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -416,8 +416,7 @@ cdef class ThreadsafeSemaphore(Semaphore):
             self.dummy = None
 
     def __len__(self) -> int:
-        cdef dict[object, Semaphore] semaphores = self.semaphores
-        return sum(len(sem) for sem in semaphores.values())
+        return sum(len(sem) for sem in self.semaphores.values())
 
     @property
     def semaphore(self) -> Semaphore:
-- 
2.43.0


From 0a4ffb29a0ddcca357c8b68317e9ab26c93e53e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 04/72] fix: ThreadsafeSemaphore.semaphore returns the current
 thread's semaphore

---
 a_sync/primitives/locks/semaphore.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 9bf17b4..7c50e52 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -432,6 +432,7 @@ cdef class ThreadsafeSemaphore(Semaphore):
                 async with semaphore.semaphore:
                     return 1
         """
+        return self.c_get_semaphore()
     
     cdef Semaphore c_get_semaphore(self):
         return self.dummy if self.use_dummy else self.semaphores[current_thread()]
-- 
2.43.0


From 5306fa0685521fea043dd6f0272c11fe6d30f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 05/72] fix: ThreadsafeSemaphore.acquire(), release() and
 locked() use the same permits as 'async with'

---
 a_sync/primitives/locks/semaphore.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 7c50e52..b1151e5 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -437,6 +437,18 @@ cdef class ThreadsafeSemaphore(Semaphore):
     cdef Semaphore c_get_semaphore(self):
         return self.dummy if self.use_dummy else self.semaphores[current_thread()]
 
+    cdef bint c_locked(self):
+        return self.c_get_semaphore().c_locked()
+
+    cdef object c_acquire(self):
+        return self.c_get_semaphore().c_acquire()
+
+    cpdef void release(self):
+        self.c_get_semaphore().c_release()
+
+    cdef void c_release(self):
+        self.c_get_semaphore().c_release()
+
     async def __aenter__(self):
         await self.c_get_semaphore().c_acquire()
 
-- 
2.43.0


From e0dc91f4e17215216a90b7d3f3ce0937837824a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 06/72] fix: PrioritySemaphore.locked() no longer raises
 AttributeError

---
 a_sync/primitives/locks/prio_semaphore.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 6a70681..e8ea610 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -168,10 +168,12 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
         cdef dict[object, _AbstractPrioritySemaphoreContextManager] cms = self._context_managers
         if not cms:
             return False
-        return any(
-            cm._Semaphore__waiters and any(not w.cancelled() for w in cm._Semaphore__waiters)
-            for cm in cms.values()
-        )
+        # NOTE: a generator expression can not access the C attributes of the managers
+        for cm in cms.values():
+            for w in cm._Semaphore__waiters or ():
+                if not w.cancelled():
+                    return True
+        return False
 
     cdef dict[object, Py_ssize_t] _count_waiters(self):
         """Counts the number of waiters for each priority.
-- 
2.43.0


From ff7eb6d2aa6afccdc75a11cb1ebfaa270278260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 07/72] fix: PrioritySemaphore[0] has priority 0, not the top
 priority

---
 a_sync/primitives/locks/prio_semaphore.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index e8ea610..3cb21a0 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -502,7 +502,7 @@ cdef class PrioritySemaphore(_AbstractPrioritySemaphore):  # type: ignore [type-
             >>> semaphore = _AbstractPrioritySemaphore(5)
             >>> context_manager = semaphore[priority]
         """
-        return self.c_getitem(priority or -1)
+        return self.c_getitem(-1 if priority is None else priority)
     
     cdef object c_getitem(self, object priority):
         if self._Semaphore__value is None:
-- 
2.43.0


From ac9a5b679b977d188a42c6f38cb33ec0080fe861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 08/72] fix: a waiter of a PrioritySemaphore keeps its priority
 when another caller takes its permit

---
 a_sync/primitives/locks/prio_semaphore.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 3cb21a0..48dc7d9 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -371,11 +371,15 @@ cdef class _AbstractPrioritySemaphoreContextManager(Semaphore):
     
     async def __acquire(self) -> Literal[True]:
         cdef object loop, fut
+        cdef _AbstractPrioritySemaphoreContextManager manager
         while self._parent._Semaphore__value <= 0:
-            if self._Semaphore__waiters is None:
-                self._Semaphore__waiters = deque()
             fut = self._c_get_loop().create_future()
-            self._Semaphore__waiters.append(fut)
+            # The parent forgets a manager once it has no more waiters. In that case, we must wait
+            # with the manager the parent has now, or it can not find us in order of priority.
+            manager = self._parent.c_getitem(self._priority)
+            if manager._Semaphore__waiters is None:
+                manager._Semaphore__waiters = deque()
+            manager._Semaphore__waiters.append(fut)
             self._parent._potential_lost_waiters.append(fut)
             try:
                 await fut
-- 
2.43.0


From 360719a69086cb7c2b89f2e18e6a303f01f351e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 09/72] fix: a failed Queue.get_multi_nowait() leaves the queue
 and its count of unfinished tasks unchanged

---
 a_sync/primitives/queue.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 33398b9..6712e92 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -222,18 +222,11 @@ class Queue(_Queue[T]):
             >>> print(tasks)
         """
         _validate_args(i, can_return_less)
-        items = []
-        for _ in range(i):
-            try:
-                items.append(self.get_nowait())
-            except asyncio.QueueEmpty:
-                if items and can_return_less:
-                    return items
-                # put these back in the queue since we didn't return them
-                for value in items:
-                    self.put_nowait(value)
-                raise asyncio.QueueEmpty from None
-        return items
+        # check before we take anything, so there is nothing to put back if we can't return
+        available = self.qsize()
+        if not available or (available < i and not can_return_less):
+            raise asyncio.QueueEmpty
+        return [self.get_nowait() for _ in range(min(i, available))]
 
 
 class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
-- 
2.43.0


From d91d1a0f1810d45e809668e6e544339d1060b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 10/72] fix: Queue.get_multi() waits for and returns all of its
 items, also if some arrive later

---
 a_sync/primitives/queue.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 6712e92..b19bbc1 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -199,11 +199,20 @@ class Queue(_Queue[T]):
         """
         _validate_args(i, can_return_less)
         items = []
-        while len(items) < i and not can_return_less:
+        while len(items) < i:
             try:
-                items.extend(self.get_multi_nowait(i - len(items), can_return_less=True))
+                items.append(self.get_nowait())
             except asyncio.QueueEmpty:
-                items = [await self.get()]
+                if items and can_return_less:
+                    break
+                try:
+                    items.append(await self.get())
+                except BaseException:
+                    # put these back at the front of the queue since we can't return them
+                    self._queue.extendleft(reversed(items))
+                    for _ in items:
+                        self._wakeup_next(self._getters)
+                    raise
         return items
 
     def get_multi_nowait(self, i: int, can_return_less: bool = False) -> List[T]:
-- 
2.43.0


From ac2a4ee0a96f1a399fdb16777c017a9ef1f24a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 11/72] fix: ProcessingQueue.put() and
 SmartProcessingQueue.put() process the item that was put

---
 a_sync/primitives/queue.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index b19bbc1..b454f6b 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -397,12 +397,9 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
             >>> fut = await queue.put(item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        if self._no_futs:
-            return await super().put((args, kwargs))
-        fut = self._create_future()
-        await super().put((args, kwargs, fut))
-        return fut
+        # The queue is unbounded, so there is never a need to wait. We can't use `asyncio.Queue.put`
+        # as it would call our own `put_nowait` with the queue item in place of the task's arguments.
+        return self.put_nowait(*args, **kwargs)
 
     def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
@@ -816,14 +813,7 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
             >>> fut = await queue.put(item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        key = self._get_key(*args, **kwargs)
-        if fut := self._futs.get(key, None):
-            return fut
-        fut = self._create_future(key)
-        self._futs[key] = fut
-        await Queue.put(self, (_SmartFutureRef(fut), args, kwargs))
-        return fut
+        return self.put_nowait(*args, **kwargs)
 
     def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> _smart.SmartFuture[V]:
         """
-- 
2.43.0


From c539ac5be5609aa7ebd3e41b10ccf3adfb1c84d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 12/72] fix: a ProcessingQueue worker no longer breaks when the
 caller drops the future of its item

---
 a_sync/primitives/queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index b454f6b..48957cb 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -420,7 +420,7 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
         if self._no_futs:
             return super().put_nowait((args, kwargs))
         fut = self._create_future()
-        super().put_nowait((args, kwargs, weakref.proxy(fut)))
+        super().put_nowait((args, kwargs, fut))
         return fut
 
     def _create_future(self) -> "asyncio.Future[V]":
-- 
2.43.0


From 8c87492200264f72f6d7cd35650b333e01583e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 13/72] fix: PriorityProcessingQueue processes its items, in
 order of priority

---
 a_sync/primitives/queue.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 48957cb..36c652a 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -16,6 +16,7 @@ See Also:
 import asyncio
 import functools
 import heapq
+import itertools
 import logging
 import sys
 import weakref
@@ -626,6 +627,10 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
         :class:`~ProcessingQueue`
     """
 
+    def _init(self, maxsize):
+        super()._init(maxsize)
+        self._counter = itertools.count()
+
     async def put(self, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
         Asynchronously adds a task with priority to the queue.
@@ -642,10 +647,7 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> fut = await queue.put(priority=1, item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        fut = asyncio.get_event_loop().create_future()
-        await super().put(self, (priority, args, kwargs, fut))
-        return fut
+        return self.put_nowait(priority, *args, **kwargs)
 
     def put_nowait(self, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
@@ -664,8 +666,9 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> print(await fut)
         """
         self._ensure_workers()
-        fut = self._create_future()
-        super().put_nowait(self, (priority, args, kwargs, fut))
+        fut = None if self._no_futs else self._create_future()
+        # the counter ensures we only ever compare priorities, and that ties are processed in order
+        Queue.put_nowait(self, (priority, next(self._counter), args, kwargs, fut))
         return fut
 
     def _get(self, heappop=heapq.heappop):
@@ -679,8 +682,8 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> task = queue._get()
             >>> print(task)
         """
-        priority, args, kwargs, fut = heappop(self._queue)
-        return args, kwargs, fut
+        priority, _, args, kwargs, fut = heappop(self._queue)
+        return (args, kwargs) if self._no_futs else (args, kwargs, fut)
 
 
 class _VariablePriorityQueueMixin(_PriorityQueueMixin[T]):
-- 
2.43.0


From 67d4b1e34e55db0deadcb800db2ec2fa41ba5918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 14/72] fix: a ProcessingQueue delivers an InvalidStateError of
 its func like any other exception

---
 a_sync/primitives/queue.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 36c652a..7716838 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -490,14 +490,16 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                             self.task_done()
                             continue
                         result = await self.func(*args, **kwargs)
-                        fut.set_result(result)
-                    except asyncio.exceptions.InvalidStateError:
-                        logger.error(
-                            "cannot set result for %s %s: %s",
-                            self.func.__name__,
-                            fut,
-                            result,
-                        )
+                        # the caller may have cancelled the future, `func` may raise InvalidStateError
+                        if fut.done():
+                            logger.error(
+                                "cannot set result for %s %s: %s",
+                                self.func.__name__,
+                                fut,
+                                result,
+                            )
+                        else:
+                            fut.set_result(result)
                     except Exception as e:
                         try:
                             fut.set_exception(e)
-- 
2.43.0


From 0cf2f7f8149e680381378d2554095e91ac04f988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 15/72] fix: a ProcessingQueue worker survives a cancelled
 future when its func has no __name__

---
 a_sync/primitives/queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 7716838..ca1b992 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -494,7 +494,7 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                         if fut.done():
                             logger.error(
                                 "cannot set result for %s %s: %s",
-                                self.func.__name__,
+                                self.func,
                                 fut,
                                 result,
                             )
@@ -506,7 +506,7 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                         except asyncio.exceptions.InvalidStateError:
                             logger.error(
                                 "cannot set exception for %s %s: %s",
-                                self.func.__name__,
+                                self.func,
                                 fut,
                                 e,
                             )
-- 
2.43.0


From a97faf3e1cdb32683640c165c769fbe15fa85dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 16/72] fix: a CancelledError in its func no longer kills a
 ProcessingQueue worker and hangs the caller

---
 a_sync/primitives/queue.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index ca1b992..f62cb3f 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -464,6 +464,15 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
         task._workers = workers
         return task
 
+    @staticmethod
+    def _is_worker_cancelled() -> bool:
+        """
+        Determines whether a CancelledError in the current worker was meant for the worker itself,
+        and not just for something `func` was waiting for. Python < 3.11 can't tell the difference.
+        """
+        cancelling = getattr(asyncio.current_task(), "cancelling", None)
+        return cancelling is None or cancelling() > 0
+
     async def __worker_coro(self) -> NoReturn:
         """
         The coroutine executed by worker tasks to process the queue.
@@ -474,7 +483,12 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
             while True:
                 try:
                     args, kwargs = await self.get()
-                    await self.func(*args, **kwargs)
+                    try:
+                        await self.func(*args, **kwargs)
+                    except asyncio.CancelledError:
+                        if self._is_worker_cancelled():
+                            raise
+                        logger.error("%s was cancelled in worker for %s!", self.func, self)
                 except Exception as e:
                     logger.error("%s in worker for %s!", type(e).__name__, self)
                     logger.exception(e)
@@ -500,6 +514,11 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                             )
                         else:
                             fut.set_result(result)
+                    except asyncio.CancelledError:
+                        # do not leave the caller waiting for a result that will never come
+                        fut.cancel()
+                        if self._is_worker_cancelled():
+                            raise
                     except Exception as e:
                         try:
                             fut.set_exception(e)
-- 
2.43.0


From d7762e26cf398d1b35b982c1503c2424a204730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 17/72] fix: SmartProcessingQueue does not hand out the
 cancelled future of an earlier caller

---
 a_sync/_smart.py           | 4 +++-
 a_sync/primitives/queue.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index 80aa21a..c2eead6 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -142,7 +142,9 @@ class _SmartFutureMixin(Generic[T]):
         """
         self._waiters.clear()
         if queue := self._queue:
-            queue._futs.pop(self._key)
+            # the queue may already have a new future for this key
+            if queue._futs.get(self._key) is self:
+                queue._futs.pop(self._key)
 
 
 class SmartFuture(_SmartFutureMixin[T], asyncio.Future):
diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index f62cb3f..0189d57 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -856,7 +856,8 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
         """
         self._ensure_workers()
         key = self._get_key(*args, **kwargs)
-        if fut := self._futs.get(key, None):
+        # a future that is already done may be cancelled, and it won't be processed again
+        if (fut := self._futs.get(key, None)) and not fut.done():
             return fut
         fut = self._create_future(key)
         self._futs[key] = fut
-- 
2.43.0


From 75b723b20f3c59a79b2971a699c17c7a092a4966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 18/72] fix: gather(mapping, exclude_if=...) no longer raises
 KeyError when a result is excluded

---
 a_sync/asyncio/gather.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 9e523fb..1e35808 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -197,7 +197,7 @@ async def gather_mapping(
         if exclude_if is None or not exclude_if(v)
     }
     # return data in same order as input mapping
-    return {k: results[k] for k in mapping}
+    return {k: results[k] for k in mapping if k in results}
 
 cdef inline bint _is_mapping(object awaitables):
     return len(awaitables) == 1 and isinstance(awaitables[0], Mapping)
-- 
2.43.0


From 552d6585e304b131b810fe8c8ea33fece3a23428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 19/72] fix: as_completed(mapping) honours a fractional timeout

---
 a_sync/asyncio/as_completed.pxd | 2 +-
 a_sync/asyncio/as_completed.pyx | 4 ++--
 a_sync/asyncio/gather.pyx       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/a_sync/asyncio/as_completed.pxd b/a_sync/asyncio/as_completed.pxd
index 7486941..7bb75af 100644
--- a/a_sync/asyncio/as_completed.pxd
+++ b/a_sync/asyncio/as_completed.pxd
@@ -1,6 +1,6 @@
 cdef object as_completed_mapping(
     object mapping,
-    unsigned int timeout,
+    object timeout,
     bint return_exceptions,
     bint aiter,
     bint tqdm,
diff --git a/a_sync/asyncio/as_completed.pyx b/a_sync/asyncio/as_completed.pyx
index d183b39..652813a 100644
--- a/a_sync/asyncio/as_completed.pyx
+++ b/a_sync/asyncio/as_completed.pyx
@@ -117,7 +117,7 @@ def as_completed(
     if isinstance(fs, Mapping):
         return as_completed_mapping(
             mapping=fs,
-            timeout=timeout or 0,
+            timeout=timeout,
             return_exceptions=return_exceptions,
             aiter=aiter,
             tqdm=tqdm,
@@ -140,7 +140,7 @@ def as_completed(
 
 cdef object as_completed_mapping(
     object mapping,
-    unsigned int timeout,
+    object timeout,
     bint return_exceptions,
     bint aiter,
     bint tqdm,
diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 1e35808..467c85b 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -188,7 +188,7 @@ async def gather_mapping(
         k: v
         async for k, v in as_completed_mapping(
             mapping=mapping,
-            timeout=0,
+            timeout=None,
             return_exceptions=return_exceptions,
             aiter=True,
             tqdm=tqdm,
-- 
2.43.0


From cb778772ff6b128fffea5ec505b5641752937852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 20/72] fix: create_task() forgets persisted tasks once they
 are done, and is not broken by a cancelled one

---
 a_sync/asyncio/create_task.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/a_sync/asyncio/create_task.pyx b/a_sync/asyncio/create_task.pyx
index 129c0a5..7995796 100644
--- a/a_sync/asyncio/create_task.pyx
+++ b/a_sync/asyncio/create_task.pyx
@@ -134,7 +134,11 @@ cdef void __prune_persisted_tasks():
     cdef object task
     cdef dict context
     for task in tuple(__persisted_tasks):
-        if task.done() and (e := task.exception()):
+        if not task.done():
+            continue
+        __persisted_tasks.discard(task)
+        # a cancelled task has no exception to log
+        if not task.cancelled() and (e := task.exception()):
             # force exceptions related to this lib to bubble up
             if not isinstance(e, exceptions.PersistedTaskException):
                 c_logger.exception(e)
@@ -149,7 +153,6 @@ cdef void __prune_persisted_tasks():
             if task._source_traceback:
                 context["source_traceback"] = task._source_traceback
             task._loop.call_exception_handler(context)
-            __persisted_tasks.discard(task)
 
 
 async def __persisted_task_exc_wrap(task: "asyncio.Task[T]") -> T:
-- 
2.43.0


From 6f81a2f16580e217f6238538aeeb0119165304da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 21/72] fix: as_yielded() yields all items before it raises the
 exception of a failed iterator

---
 a_sync/utils/iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index 44e4da5..15557ab 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -243,7 +243,8 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
 
     task.add_done_callback(_as_yielded_done_callback)
 
-    while not task.done():
+    # the task may fail while there are still items to yield
+    while not (task.done() and queue.empty()):
         try:
             items = await queue.get_all()
         except asyncio.CancelledError:
-- 
2.43.0


From 7ecd494646db2a24638b507b149c42f07d6495f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 22/72] fix: an iterator that fails after as_yielded() was
 cancelled does not cause a NameError

---
 a_sync/utils/iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index 15557ab..4d94e75 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -228,7 +228,8 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
     # hypothesis idea: _Done should never be exposed to user, works for all desired input types
     queue: Queue[Union[T, _Done]] = Queue()
 
-    def _as_yielded_done_callback(t: asyncio.Task) -> None:
+    # NOTE: the queue is bound here because the name will be gone once the iteration has ended
+    def _as_yielded_done_callback(t: asyncio.Task, queue: Queue = queue) -> None:
         if t.cancelled():
             return
         if e := t.exception():
-- 
2.43.0


From a0635604fe21833cceae5fdfbaea79f9eaebe00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 23/72] fix: ASyncSorter with an async key sorts async
 iterables too, and compares nothing but the keys

---
 a_sync/iter.pyx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 94d9a09..a263ee6 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -5,6 +5,7 @@ import logging
 import sys
 import weakref
 from copy import deepcopy
+from operator import itemgetter
 from types import FunctionType
 from typing import _GenericAlias, get_args
 
@@ -751,11 +752,13 @@ class ASyncSorter(_ASyncView[T]):
                     sort_tasks.append(
                         ccreate_task_simple(self._function(obj))
                     )
-                for sort_value, obj in sorted(
-                    zip(await asyncio.gather(*sort_tasks), items),
-                    reverse=reverse,
-                ):
-                    yield obj
+            # NOTE: compare the keys only, not the objects
+            for _, obj in sorted(
+                zip(await asyncio.gather(*sort_tasks), items),
+                key=itemgetter(0),
+                reverse=reverse,
+            ):
+                yield obj
         else:
             if self.__aiterator__:
                 items = [obj async for obj in self.__aiterator__]
-- 
2.43.0


From 040354e950f26e8351cdaea983115698028e8169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:41 +0000
Subject: [PATCH 24/72] fix: methods, generators and iterators work in threads
 without an event loop, like functions do

---
 a_sync/a_sync/method.pyx   | 3 +--
 a_sync/a_sync/property.pyx | 3 +--
 a_sync/iter.pyx            | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 1e3afe6..02a43a5 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -17,7 +17,7 @@ from logging import DEBUG, getLogger
 from a_sync._typing import *
 from a_sync.a_sync._kwargs cimport get_flag_name, is_sync
 from a_sync.a_sync._descriptor import ASyncDescriptor
-from a_sync.a_sync._helpers cimport _await
+from a_sync.a_sync._helpers cimport _await, get_event_loop
 from a_sync.a_sync.function import (
     ASyncFunction,
     ASyncFunctionAsyncDefault,
@@ -39,7 +39,6 @@ logger = getLogger(__name__)
 cdef object c_logger = logger
 
 
-cdef object get_event_loop = asyncio.get_event_loop
 
 
 class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 4df298f..42fb12c 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -7,7 +7,7 @@ from typing_extensions import Unpack
 from a_sync import _smart
 from a_sync._typing import *
 from a_sync.a_sync import config
-from a_sync.a_sync._helpers cimport _asyncify, _await
+from a_sync.a_sync._helpers cimport _asyncify, _await, get_event_loop
 from a_sync.a_sync._descriptor import ASyncDescriptor
 from a_sync.a_sync.function import (
     ASyncFunction,
@@ -30,7 +30,6 @@ logger = getLogger(__name__)
 cdef object c_logger = logger
 
 
-cdef object get_event_loop = asyncio.get_event_loop
 
 
 class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index a263ee6..8ff3dae 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -12,7 +12,7 @@ from typing import _GenericAlias, get_args
 from async_property import async_cached_property
 
 from a_sync._typing import *
-from a_sync.a_sync._helpers cimport _await
+from a_sync.a_sync._helpers cimport _await, get_event_loop
 from a_sync.asyncio.create_task cimport ccreate_task_simple
 from a_sync.exceptions import SyncModeInAsyncContextError
 
@@ -30,7 +30,6 @@ else:
 cdef tuple[str] _FORMAT_PATTERNS = ("{cls}", "{obj}")
 
 
-cdef object get_event_loop = asyncio.get_event_loop
 
 
 class _AwaitableAsyncIterableMixin(AsyncIterable[T]):
-- 
2.43.0


From e98753f31354dfa20c00e6e7f9c534e2a6b934bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:41 +0000
Subject: [PATCH 25/72] fix: the timers of cached bound methods no longer
 corrupt the event loop's heap of timers

---
 a_sync/a_sync/method.pyx | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 02a43a5..9d06d4c 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -230,15 +230,29 @@ cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMe
         bound: The bound method we are caching.
     """
     # Handler for popping unused bound methods from bound method cache
-    cdef object handle, loop
+    cdef object loop
     if handle := bound._cache_handle:
-        # update the timer handle
-        handle._when = handle._loop.time() + _METHOD_CACHE_TTL
+        # NOTE: the time of a scheduled handle can't be changed, so `_pop_unused` will check this one
+        bound._cache_expires = handle._loop.time() + _METHOD_CACHE_TTL
     else:
         # create and assign the timer handle
         loop = get_event_loop()
-        # NOTE: use `instance.__dict__.pop` instead of `delattr` so we don't create a strong ref to `instance`
-        bound._cache_handle = loop.call_at(loop.time() + _METHOD_CACHE_TTL, instance.__dict__.pop, field_name)
+        bound._cache_expires = loop.time() + _METHOD_CACHE_TTL
+        # NOTE: use `instance.__dict__` instead of `instance` so we don't create a strong ref to `instance`
+        bound._cache_handle = loop.call_at(
+            bound._cache_expires, _pop_unused, instance.__dict__, field_name, bound
+        )
+
+
+def _pop_unused(dict cache, str key, object bound) -> None:
+    """Pop the bound method from the cache if it was not used since its timer handle was created."""
+    cdef object loop = bound._cache_handle._loop
+    if cache.get(key) is not bound:
+        return
+    if bound._cache_expires > loop.time():
+        bound._cache_handle = loop.call_at(bound._cache_expires, _pop_unused, cache, key, bound)
+    else:
+        cache.pop(key)
 
 
 @final
@@ -488,6 +502,9 @@ class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
     _cache_handle: asyncio.TimerHandle = None
     """An asyncio handle used to pop the bound method from `instance.__dict__` 5 minutes after its last use."""
 
+    _cache_expires: float
+    """The time, per the clock of the handle's event loop, at which the bound method will have been unused for 5 minutes."""
+
     __weakself__: "weakref.ref[I]"
     """A weak reference to the instance the function is bound to."""
 
-- 
2.43.0


From ea70110910f49f478f52a61c58002462ffe1e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:18 +0000
Subject: [PATCH 26/72] fix: super() reaches the overridden method, property or
 generator, and a copy of an instance has methods of its own

---
 a_sync/a_sync/method.pxd   |  4 +-
 a_sync/a_sync/method.pyx   | 83 +++++++++++++++++++++++++++++---------
 a_sync/a_sync/property.pyx | 12 +++---
 a_sync/iter.pyx            |  5 +++
 4 files changed, 76 insertions(+), 28 deletions(-)

diff --git a/a_sync/a_sync/method.pxd b/a_sync/a_sync/method.pxd
index be064bd..dc8e8d7 100644
--- a/a_sync/a_sync/method.pxd
+++ b/a_sync/a_sync/method.pxd
@@ -1,2 +1,4 @@
 cdef bint _is_a_sync_instance(object instance)
-cdef void _update_cache_timer(str field_name, object instance, object bound)
\ No newline at end of file
+cdef object _get_cached_bound(object descriptor, object instance)
+cdef object _cache_bound(object descriptor, object instance, object bound)
+cdef object _update_cache_timer(object descriptor, object instance, object bound)
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 9d06d4c..0d92619 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -124,9 +124,8 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
         """
         if instance is None:
             return self
-        try:
-            bound = instance.__dict__[self.field_name]
-        except KeyError:
+        bound = _get_cached_bound(self, instance)
+        if bound is None:
             from a_sync.a_sync.abstract import ASyncABC
 
             if self.default == "sync":
@@ -164,9 +163,8 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
                 bound = ASyncBoundMethod(
                     instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
                 )
-            instance.__dict__[self.field_name] = bound
-            c_logger.debug("new bound method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+            _cache_bound(self, instance, bound)
+        _update_cache_timer(self, instance, bound)
         return bound
 
     def __set__(self, instance, value):
@@ -221,11 +219,53 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
         return asyncio.iscoroutinefunction(self.__wrapped__)
 
 
-cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMethod"):
+cdef str _get_cache_key(object descriptor, object instance):
+    """
+    Get the key under which the bound method is cached in `instance.__dict__`.
+
+    A descriptor that is overridden by a subclass is still accessible with `super()`.
+    It must not share its bound method with the descriptor that overrides it.
+    """
+    if getattr(type(instance), descriptor.field_name, None) is descriptor:
+        return descriptor.field_name
+    return "{}@{}".format(descriptor.field_name, id(descriptor))
+
+
+cdef object _get_cached_bound(object descriptor, object instance):
+    """
+    Get the cached bound method for the instance, or None if there is none.
+
+    Args:
+        descriptor: The descriptor which creates the bound method.
+        instance: The instance to which the method is bound.
+    """
+    cdef object bound = instance.__dict__.get(_get_cache_key(descriptor, instance))
+    # NOTE: if `instance` is a copy, the bound method was copied too but is bound to the original
+    if bound is not None and bound._descriptor is descriptor and bound.__weakself__() is instance:
+        return bound
+    return None
+
+
+cdef object _cache_bound(object descriptor, object instance, object bound):
+    """
+    Cache the bound method for the instance.
+    
+    Args:
+        descriptor: The descriptor which created the bound method.
+        instance: The instance to which the method is bound.
+        bound: The bound method to cache.
+    """
+    bound._descriptor = descriptor
+    instance.__dict__[_get_cache_key(descriptor, instance)] = bound
+    c_logger.debug("new bound method: %s", bound)
+
+
+cdef object _update_cache_timer(object descriptor, object instance, object bound):
     """
     Update the TTL for the cache handle for the instance.
 
     Args:
+        descriptor: The descriptor which created the bound method.
         instance: The instance to create a cache handle for.
         bound: The bound method we are caching.
     """
@@ -240,7 +280,11 @@ cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMe
         bound._cache_expires = loop.time() + _METHOD_CACHE_TTL
         # NOTE: use `instance.__dict__` instead of `instance` so we don't create a strong ref to `instance`
         bound._cache_handle = loop.call_at(
-            bound._cache_expires, _pop_unused, instance.__dict__, field_name, bound
+            bound._cache_expires,
+            _pop_unused,
+            instance.__dict__,
+            _get_cache_key(descriptor, instance),
+            bound,
         )
 
 
@@ -328,15 +372,13 @@ class ASyncMethodDescriptorSyncDefault(ASyncMethodDescriptor[I, P, T]):
         """
         if instance is None:
             return self
-        try:
-            bound = instance.__dict__[self.field_name]
-        except KeyError:
+        bound = _get_cached_bound(self, instance)
+        if bound is None:
             bound = ASyncBoundMethodSyncDefault(
                 instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
             )
-            instance.__dict__[self.field_name] = bound
-            c_logger.debug("new bound method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+            _cache_bound(self, instance, bound)
+        _update_cache_timer(self, instance, bound)
         return bound
 
 
@@ -413,15 +455,13 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
         
         cdef object bound
 
-        try:
-            bound = instance.__dict__[self.field_name]
-        except KeyError:
+        bound = _get_cached_bound(self, instance)
+        if bound is None:
             bound = ASyncBoundMethodAsyncDefault(
                 instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
             )
-            instance.__dict__[self.field_name] = bound
-            c_logger.debug("new bound method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+            _cache_bound(self, instance, bound)
+        _update_cache_timer(self, instance, bound)
         return bound
 
 
@@ -505,6 +545,9 @@ class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
     _cache_expires: float
     """The time, per the clock of the handle's event loop, at which the bound method will have been unused for 5 minutes."""
 
+    _descriptor: ASyncMethodDescriptor
+    """The descriptor that created this bound method."""
+
     __weakself__: "weakref.ref[I]"
     """A weak reference to the instance the function is bound to."""
 
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 42fb12c..ca7c0c7 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -18,7 +18,7 @@ from a_sync.a_sync.method import (
     ASyncBoundMethodAsyncDefault,
     ASyncMethodDescriptorAsyncDefault,
 )
-from a_sync.a_sync.method cimport _is_a_sync_instance, _update_cache_timer
+from a_sync.a_sync.method cimport _cache_bound, _get_cached_bound, _is_a_sync_instance, _update_cache_timer
 from a_sync.asyncio.create_task cimport ccreate_task_simple
 
 if TYPE_CHECKING:
@@ -739,9 +739,8 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
             return self
     
         cdef object bound
-        try:
-            bound = instance.__dict__[self.field_name]
-        except KeyError:
+        bound = _get_cached_bound(self, instance)
+        if bound is None:
             bound = HiddenMethod(
                 instance,
                 self.__wrapped__,
@@ -749,9 +748,8 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
                 self.field_name,
                 **self.modifiers,
             )
-            instance.__dict__[self.field_name] = bound
-            c_logger.debug("new hidden method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+            _cache_bound(self, instance, bound)
+        _update_cache_timer(self, instance, bound)
         return bound
 
 
diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 8ff3dae..5fa77c0 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -519,6 +519,11 @@ class ASyncGeneratorFunction(Generic[P, T]):
             return self
 
         cdef object gen_func
+        if getattr(type(instance), self.field_name, None) is not self:
+            # We must not share the cached function of the subclass that overrides us (we got here with `super()`)
+            gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
+            gen_func._cache_handle.cancel()
+            return gen_func
         try:
             gen_func = instance.__dict__[self.field_name]
         except KeyError:
-- 
2.43.0


From 3f71d773fb96ecc0fbf2d007b9633becd2a174ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 27/72] fix: caches keyed by id() no longer mistake a new
 function or class for a garbage collected one

---
 a_sync/a_sync/base.pyx     | 18 +++++++++++-------
 a_sync/a_sync/function.pyx | 30 ++++++++++++++++++++++--------
 a_sync/a_sync/method.pyx   | 15 +++++++--------
 3 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 143dbf7..3723273 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -1,8 +1,8 @@
 import functools
 import inspect
+import weakref
 from contextlib import suppress
 from logging import DEBUG, getLogger
-from libc.stdint cimport uintptr_t
 
 from a_sync import exceptions
 from a_sync._typing import *
@@ -212,13 +212,17 @@ cdef inline bint _get_a_sync_flag_value_from_class_def(object cls, str flag):
     raise exceptions.FlagNotDefined(cls, flag)
 
 
-cdef dict[uintptr_t, object] _init_signature_cache = {}
+cdef object _init_signature_cache = weakref.WeakKeyDictionary()
 
 
 cdef _get_init_signature(object cls):
-    cdef uintptr_t cls_init_id = id(cls.__init__)
-    signature = _init_signature_cache.get(cls_init_id)
-    if signature is None:
-        signature = inspect.signature(cls.__init__)
-        _init_signature_cache[cls_init_id] = signature
+    cdef object cls_init = cls.__init__
+    try:
+        signature = _init_signature_cache.get(cls_init)
+        if signature is None:
+            signature = inspect.signature(cls_init)
+            _init_signature_cache[cls_init] = signature
+    except TypeError:
+        # this `__init__` does not support weak references
+        signature = inspect.signature(cls_init)
     return signature
diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 3360db9..26d1407 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -2,6 +2,9 @@ import functools
 import inspect
 import logging
 import sys
+import weakref
+
+from libc.stdint cimport uintptr_t
 
 from async_lru import _LRUCacheWrapper
 from async_property.base import AsyncPropertyDescriptor  # type: ignore [import]
@@ -120,13 +123,25 @@ cpdef void _validate_wrapped_fn(fn: Callable):
 
 cdef object _function_type = type(logging.getLogger)
 
-cdef set[Py_ssize_t] _argspec_validated = set()
+cdef dict[uintptr_t, object] _argspec_validated = {}
 
 cdef void _validate_argspec_cached(fn: Callable):
-    cdef Py_ssize_t fid = id(fn)
-    if fid not in _argspec_validated:
+    if not _is_cached(_argspec_validated, fn):
         _validate_argspec(fn)
-        _argspec_validated.add(fid)
+        _cache(_argspec_validated, fn)
+
+# NOTE: the id of a function can be reused once the function is garbage collected,
+#       so an entry of these caches only counts while its function is alive.
+cdef bint _is_cached(dict[uintptr_t, object] cache, object fn):
+    cdef object ref = cache.get(<uintptr_t>id(fn))
+    return ref is not None and ref() is fn
+
+cdef void _cache(dict[uintptr_t, object] cache, object fn):
+    try:
+        cache[<uintptr_t>id(fn)] = weakref.ref(fn)
+    except TypeError:
+        # this callable does not support weak references
+        pass
 
 cdef void _validate_argspec(fn: Callable):
     fn_args = inspect.getfullargspec(fn)[0]
@@ -971,13 +986,12 @@ class ASyncDecorator(_ModifiedMixin):
             return ASyncFunctionSyncDefault(func, **self.modifiers)
 
 
-cdef set[Py_ssize_t] _is_genfunc_cache = set()
+cdef dict[uintptr_t, object] _is_genfunc_cache = {}
 
 cdef void _check_not_genfunc_cached(func: Callable):
-    cdef Py_ssize_t fid = id(func)
-    if fid not in _is_genfunc_cache:
+    if not _is_cached(_is_genfunc_cache, func):
         _check_not_genfunc(func)
-        _is_genfunc_cache.add(fid)
+        _cache(_is_genfunc_cache, func)
 
 cdef void _check_not_genfunc(func: Callable):
     """Raises an error if the function is a generator or async generator.
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 0d92619..16c9861 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -11,7 +11,6 @@ asynchronously based on various conditions and configurations.
 import functools
 import weakref
 from inspect import isawaitable
-from libc.stdint cimport uintptr_t
 from logging import DEBUG, getLogger
 
 from a_sync._typing import *
@@ -465,7 +464,8 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
         return bound
 
 
-cdef dict[uintptr_t, bint] _is_a_sync_instance_cache = {}
+# NOTE: we can't use the ids of the classes since they can be reused after a class is garbage collected
+cdef object _is_a_sync_instance_cache = weakref.WeakKeyDictionary()
 
 cdef bint _is_a_sync_instance(object instance):
     """Checks if an instance is an ASync instance.
@@ -477,12 +477,11 @@ cdef bint _is_a_sync_instance(object instance):
         A boolean indicating if the instance is an ASync instance.
     """
     cdef object instance_type = type(instance)
-    cdef uintptr_t instance_type_uid = id(instance_type)
-    if instance_type_uid in _is_a_sync_instance_cache:
-        return _is_a_sync_instance_cache[instance_type_uid]
-    from a_sync.a_sync.abstract import ASyncABC
-    cdef bint is_a_sync = issubclass(instance_type, ASyncABC)
-    _is_a_sync_instance_cache[instance_type_uid] = is_a_sync
+    cdef object is_a_sync = _is_a_sync_instance_cache.get(instance_type)
+    if is_a_sync is None:
+        from a_sync.a_sync.abstract import ASyncABC
+        is_a_sync = issubclass(instance_type, ASyncABC)
+        _is_a_sync_instance_cache[instance_type] = is_a_sync
     return is_a_sync
 
 
-- 
2.43.0


From 30002fec6d3c26c60b22c90f49c415651aab697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 28/72] fix: debug logs no longer raise TypeError, or fail to
 format

---
 a_sync/a_sync/abstract.pyx                 | 3 ++-
 a_sync/a_sync/property.pyx                 | 2 +-
 a_sync/primitives/locks/prio_semaphore.pyx | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/a_sync/a_sync/abstract.pyx b/a_sync/a_sync/abstract.pyx
index e4983b4..c427832 100644
--- a/a_sync/a_sync/abstract.pyx
+++ b/a_sync/a_sync/abstract.pyx
@@ -172,7 +172,8 @@ class ASyncABC(metaclass=ASyncMeta):
         if not flag:
             c_logger._log(
                 DEBUG,
-                "No valid flags found in kwargs, checking class definition for defined default"
+                "No valid flags found in kwargs, checking class definition for defined default",
+                (),
             )
             return cls.__a_sync_default_mode__()  # type: ignore [arg-type]
 
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index ca7c0c7..9977fb5 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -131,7 +131,7 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
             if debug_logs:
                 c_logger._log(
                     DEBUG,
-                    "awaiting awaitable for %s for instance: %s owner: %s",
+                    "awaiting %s for %s for instance: %s owner: %s",
                     (awaitable, self, instance, owner),
                 )
             retval = _await(awaitable)
diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 48dc7d9..b1fe3ed 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -230,7 +230,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
             if debug_logs:
                 c_logger._log(DEBUG, "waking up next for %s", (manager._c_repr_no_parent_(), ))
                 if not manager._Semaphore__waiters:
-                    c_logger._log(DEBUG, "not manager._Semaphore__waiters")
+                    c_logger._log(DEBUG, "not manager._Semaphore__waiters", ())
 
             while manager._Semaphore__waiters:
                 waiter = manager._Semaphore__waiters.popleft()
-- 
2.43.0


From 51853bfd351058a0ea0300a507575e1d3beffa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 29/72] fix: a cached property whose computation failed or was
 cancelled is computed again, it does not fail forever

---
 a_sync/a_sync/property.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 9977fb5..4afbce3 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -433,7 +433,7 @@ class ASyncCachedPropertyDescriptor(
         """
         instance_state = self.get_instance_state(instance)
         task = instance_state.lock[self.field_name]
-        if isinstance(task, asyncio.Lock):
+        if isinstance(task, asyncio.Lock) or _is_failed(task):
             # default behavior uses lock but we want to use a Task so all waiters wake up together
             task = ccreate_task_simple(self._fget(instance))
             instance_state.lock[self.field_name] = task
@@ -472,6 +472,11 @@ class ASyncCachedPropertyDescriptor(
         return load_value
 
 
+cdef bint _is_failed(object task):
+    """Checks if a task ended without a value. It must not be used again, or the property would fail forever."""
+    return task.done() and (task.cancelled() or task.exception() is not None)
+
+
 class cached_property(ASyncCachedPropertyDescriptor[I, T]):
     """Descriptor for defining cached properties that can be accessed both synchronously and asynchronously."""
 
-- 
2.43.0


From 05990e4bcababde2405e1b8a3aae730814f22cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 30/72] fix: concurrent readers of a cached property set its
 value once, and not again after it was deleted

---
 a_sync/a_sync/property.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 4afbce3..651344b 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -465,8 +465,10 @@ class ASyncCachedPropertyDescriptor(
             except Exception as e:
                 e.args = *e.args, {"property": self, "instance": instance}
                 raise
-            self.__set__(instance, value)
-            self.pop_lock(instance)
+            # NOTE: another waiter might have set the value before us
+            if self.get_instance_state(instance).lock.get(self.field_name) is inner_task:
+                self.pop_lock(instance)
+                self.__set__(instance, value)
             return value
 
         return load_value
-- 
2.43.0


From 9209196b70c486e9b34a1c4265b2b998fb931dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 31/72] fix: super() reaches the overridden cached property

---
 a_sync/a_sync/property.pyx | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 651344b..6efed83 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -422,6 +422,29 @@ class ASyncCachedPropertyDescriptor(
         self._fdel = _fdel
         """Optional deleter function for the property."""
 
+    def _get_state_key(self, instance: I) -> Union[str, Self]:
+        # NOTE: a property that is overridden by a subclass is still accessible with `super()`,
+        #       so it must not share its value and its lock with the property that overrides it.
+        if getattr(type(instance), self.field_name, None) is self:
+            return self.field_name
+        return self
+
+    def has_cache_value(self, instance: I) -> bool:
+        """Checks if the value of the property is already cached for the instance."""
+        return self._get_state_key(instance) in self.get_cache(instance)
+
+    def get_cache_value(self, instance: I) -> T:
+        """Retrieves the cached value of the property."""
+        return self.get_cache(instance)[self._get_state_key(instance)]
+
+    def set_cache_value(self, instance: I, value: T) -> None:
+        """Caches the value of the property."""
+        self.get_cache(instance)[self._get_state_key(instance)] = value
+
+    def del_cache_value(self, instance: I) -> None:
+        """Removes the cached value of the property."""
+        del self.get_cache(instance)[self._get_state_key(instance)]
+
     def get_lock(self, instance: I) -> "asyncio.Task[T]":
         """Retrieves the lock for the property.
 
@@ -432,11 +455,11 @@ class ASyncCachedPropertyDescriptor(
             An asyncio Task representing the lock.
         """
         instance_state = self.get_instance_state(instance)
-        task = instance_state.lock[self.field_name]
+        task = instance_state.lock[self._get_state_key(instance)]
         if isinstance(task, asyncio.Lock) or _is_failed(task):
             # default behavior uses lock but we want to use a Task so all waiters wake up together
             task = ccreate_task_simple(self._fget(instance))
-            instance_state.lock[self.field_name] = task
+            instance_state.lock[self._get_state_key(instance)] = task
         return task
 
     def pop_lock(self, instance: I) -> None:
@@ -445,7 +468,7 @@ class ASyncCachedPropertyDescriptor(
         Args:
             instance: The instance from which the property is accessed.
         """
-        self.get_instance_state(instance).lock.pop(self.field_name, None)
+        self.get_instance_state(instance).lock.pop(self._get_state_key(instance), None)
 
     def get_loader(self, instance: I) -> Callable[[], T]:
         """Retrieves the loader function for the property.
@@ -466,7 +489,7 @@ class ASyncCachedPropertyDescriptor(
                 e.args = *e.args, {"property": self, "instance": instance}
                 raise
             # NOTE: another waiter might have set the value before us
-            if self.get_instance_state(instance).lock.get(self.field_name) is inner_task:
+            if self.get_instance_state(instance).lock.get(self._get_state_key(instance)) is inner_task:
                 self.pop_lock(instance)
                 self.__set__(instance, value)
             return value
-- 
2.43.0


From 6016a7d8a644322d2fa3d4da0961568f02a9716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 32/72] fix: an ASyncGeneratorFunction can be defined in the
 body of an ASync class

---
 a_sync/a_sync/_meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/a_sync/_meta.py b/a_sync/a_sync/_meta.py
index 113b263..c4f460b 100644
--- a/a_sync/a_sync/_meta.py
+++ b/a_sync/a_sync/_meta.py
@@ -82,7 +82,7 @@ class ASyncMeta(ABCMeta):
                     attr_name,
                 )
                 continue
-            elif isinstance(attr_value, (_ASyncFutureWrappedFn, Semaphore)):
+            elif isinstance(attr_value, (_ASyncFutureWrappedFn, ASyncGeneratorFunction, Semaphore)):
                 logger.debug(
                     "`%s.%s` is a %s, skipping",
                     new_class_name,
-- 
2.43.0


From adf6fc21a4cd6bbcbc6c225329db524a9af9ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 33/72] fix: an ASyncFuture can be awaited by several awaiters
 at once

---
 a_sync/future.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index 91af653..baa1ae5 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -353,7 +353,10 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
 
     async def __await(self) -> T:
         if not self.done():
-            self.set_result(await self.__task__)
+            result = await self.__task__
+            # NOTE: another awaiter might have set the result before us
+            if not self.done():
+                self.set_result(result)
         return self._result
 
     @property
-- 
2.43.0


From 2173a3c8c4a51c373a178a4dc476368fb51790a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 34/72] fix: TaskMapping does not start a second task for a key
 that already has one

---
 a_sync/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index da42f3d..796e1f6 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -570,12 +570,12 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         ]
         for iterable in containers:
             async for key in _yield_keys(iterable):
-                yield key, self.__start_task(key)
+                yield key, self[key]  # ensure task is running
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
             try:
                 async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    yield key, self.__start_task(key)
+                    yield key, self[key]  # ensure task is running
             except _EmptySequenceError:
                 if len(iterables) == 1:
                     raise
-- 
2.43.0


From 00f7520d44792323a9863094ce410ad232bbc704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:34 +0000
Subject: [PATCH 35/72] fix: TaskMapping loads all of its iterables if some of
 them are empty

---
 a_sync/task.py | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 796e1f6..56a78b3 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -325,12 +325,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                         async for key, value in self.yield_completed(pop=pop):
                             yield _yield(key, value, yields)
                 except _EmptySequenceError:
-                    if len(iterables) > 1:
-                        # TODO gotta handle this situation
-                        raise exceptions.EmptySequenceError(
-                            "bob needs to code something so you can do this, go tell him"
-                        ) from None
                     # just pass thru
+                    pass
 
             elif init_loader:
                 # check for exceptions if you passed an iterable(s) into the class init
@@ -538,6 +534,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         self, *iterables: AnyIterableOrAwaitableIterable[K]
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
         """Ensure tasks are running for each key in the provided iterables."""
+        # if you passed multiple iterables, any of them can be empty
+        raise_if_empty = len(iterables) == 1
         # if we have any regular containers we can yield their contents right away
         containers = [
             iterable
@@ -545,23 +543,22 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
         ]
         for iterable in containers:
-            async for key in _yield_keys(iterable):
+            async for key in _yield_keys(iterable, raise_if_empty):
                 yield key, self[key]
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
-            try:
-                async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    yield key, self[key]  # ensure task is running
-            except _EmptySequenceError:
-                if len(iterables) == 1:
-                    raise
-                raise RuntimeError("DEV: figure out how to handle this situation") from None
+            async for key in as_yielded(  # type: ignore [attr-defined]
+                *[_yield_keys(iterable, raise_if_empty) for iterable in remaining]
+            ):
+                yield key, self[key]  # ensure task is running
 
     @ASyncGeneratorFunction
     async def _start_tasks_for_iterables(
         self, *iterables: AnyIterableOrAwaitableIterable[K]
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
         """Start new tasks for each key in the provided iterables."""
+        # if you passed multiple iterables, any of them can be empty
+        raise_if_empty = len(iterables) == 1
         # if we have any regular containers we can yield their contents right away
         containers = [
             iterable
@@ -569,17 +566,14 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
         ]
         for iterable in containers:
-            async for key in _yield_keys(iterable):
+            async for key in _yield_keys(iterable, raise_if_empty):
                 yield key, self[key]  # ensure task is running
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
-            try:
-                async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    yield key, self[key]  # ensure task is running
-            except _EmptySequenceError:
-                if len(iterables) == 1:
-                    raise
-                raise RuntimeError("DEV: figure out how to handle this situation") from None
+            async for key in as_yielded(  # type: ignore [attr-defined]
+                *[_yield_keys(iterable, raise_if_empty) for iterable in remaining]
+            ):
+                yield key, self[key]  # ensure task is running
 
     def _if_pop_check_destroyed(self, pop: bool) -> None:
         if pop:
@@ -662,7 +656,9 @@ def _yield(key: K, value: V, yields: Literal["keys", "both"]) -> Union[K, Tuple[
 class _EmptySequenceError(ValueError): ...
 
 
-async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncIterator[K]:
+async def _yield_keys(
+    iterable: AnyIterableOrAwaitableIterable[K], raise_if_empty: bool = True
+) -> AsyncIterator[K]:
     """
     Asynchronously yield keys from the provided iterable.
 
@@ -673,7 +669,8 @@ async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncItera
         Keys extracted from the iterable.
     """
     if not iterable:
-        raise _EmptySequenceError(iterable)
+        if raise_if_empty:
+            raise _EmptySequenceError(iterable)
     elif isinstance(iterable, AsyncIterable):
         async for key in iterable:
             yield key
@@ -681,7 +678,7 @@ async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncItera
         for key in iterable:
             yield key
     elif inspect.isawaitable(iterable):
-        async for key in _yield_keys(await iterable):
+        async for key in _yield_keys(await iterable, raise_if_empty):
             yield key
     else:
         raise TypeError(iterable)
-- 
2.43.0


From 34a2dcf9c7e619e881eedbb89755ff9d6f08fe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:34 +0000
Subject: [PATCH 36/72] fix: TaskMapping.map(pop=False) yields each key once

---
 a_sync/task.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 56a78b3..7d4652b 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -310,6 +310,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         """
         self._if_pop_check_destroyed(pop)
 
+        yielded = set()
+
         # make sure the init loader is started if needed
         init_loader = self._init_loader
         if iterables and init_loader:
@@ -323,7 +325,11 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 try:
                     async for _ in self._tasks_for_iterables(*iterables):
                         async for key, value in self.yield_completed(pop=pop):
-                            yield _yield(key, value, yields)
+                            if pop:
+                                yield _yield(key, value, yields)
+                            elif key not in yielded:
+                                yielded.add(key)
+                                yield _yield(key, value, yields)
                 except _EmptySequenceError:
                     # just pass thru
                     pass
@@ -342,8 +348,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     async for key, value in as_completed(self, aiter=True):
                         self.pop(key)
                         yield _yield(key, value, yields)
-                else:
-                    async for key, value in as_completed(self, aiter=True):
+                elif unyielded := {key: self[key] for key in self if key not in yielded}:
+                    async for key, value in as_completed(unyielded, aiter=True):
                         yield _yield(key, value, yields)
         finally:
             await self._if_pop_clear(pop)
-- 
2.43.0


From d408fe1039857b6ade3cb035d73de5d067495a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:59 +0000
Subject: [PATCH 37/72] fix: TaskMapping passes the key as the first argument
 that is not given by a keyword

---
 a_sync/task.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 7d4652b..032449c 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -156,7 +156,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
 
             @functools.wraps(wrapped_func)
             async def _wrapped_set_next(
-                *args: P.args, __a_sync_recursion: int = 0, **kwargs: P.kwargs
+                *args: P.args, __a_sync_recursion__: int = 0, **kwargs: P.kwargs
             ) -> V:
                 try:
                     return await wrapped_func(*args, **kwargs)
@@ -164,9 +164,10 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     e.args = *e.args, f"wrapped:{self.__wrapped__}"
                     raise
                 except TypeError as e:
-                    if __a_sync_recursion > 2 or not (
-                        str(e).startswith(wrapped_func.__name__)
-                        and "got multiple values for argument" in str(e)
+                    if __a_sync_recursion__ > 2 or (
+                        # NOTE: the message starts with the qualname of the function
+                        f"{wrapped_func.__name__}() got multiple values for argument"
+                        not in str(e)
                     ):
                         raise
                     # NOTE: args ordering is clashing with provided kwargs. We can handle this in a hacky way.
@@ -174,7 +175,11 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     new_args = list(args)
                     new_kwargs = dict(kwargs)
                     try:
-                        for i, arg in enumerate(inspect.getfullargspec(self.__wrapped__).args):
+                        argnames = inspect.getfullargspec(self.__wrapped__).args
+                        if inspect.ismethod(self.__wrapped__):
+                            # the method is already bound to `self`
+                            argnames = argnames[1:]
+                        for i, arg in enumerate(argnames):
                             if arg in kwargs:
                                 new_args.insert(i, new_kwargs.pop(arg))
                             else:
@@ -182,7 +187,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                         return await _wrapped_set_next(
                             *new_args,
                             **new_kwargs,
-                            __a_sync_recursion=__a_sync_recursion + 1,
+                            __a_sync_recursion__=__a_sync_recursion__ + 1,
                         )
                     except TypeError as e2:
                         raise (
-- 
2.43.0


From d2b5d3eb4ff0af62d4ebbe58e92929b283177ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:06 +0000
Subject: [PATCH 38/72] fix: ProcessingQueue does not process an item that its
 caller has cancelled

---
 a_sync/primitives/queue.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 0189d57..85cc98e 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -499,8 +499,9 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                 try:
                     args, kwargs, fut = await self.get()
                     try:
-                        if fut is None:
-                            # the weakref was already cleaned up, we don't need to process this item
+                        if fut is None or fut.cancelled():
+                            # the weakref was already cleaned up or the caller does not
+                            # want the result any more, we don't need to process this item
                             self.task_done()
                             continue
                         result = await self.func(*args, **kwargs)
-- 
2.43.0


From bca0f76c3938f68d19412cfb4736c1ba36114287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:20 +0000
Subject: [PATCH 39/72] fix: as_yielded() does not go on exhausting its
 iterators when its consumer is gone

---
 a_sync/utils/iterators.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index 4d94e75..ad84cab 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -250,6 +250,7 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
             items = await queue.get_all()
         except asyncio.CancelledError:
             # cleanup lingering objects and reraise
+            task.cancel()
             del task
             del queue
             raise
@@ -262,7 +263,12 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
                 if item._exc:
                     raise item._exc.with_traceback(item._tb) from item._exc.__cause__
                 return
-            yield item
+            try:
+                yield item
+            except GeneratorExit:
+                # there is nobody left to exhaust the iterators for
+                task.cancel()
+                raise
 
     # ensure it isn't done due to an internal exception
     await task
-- 
2.43.0


From ea20b44f92a906adb2a9f1fca905280907d29717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:47 +0000
Subject: [PATCH 40/72] fix: TaskMapping.max() and min() accept None as the
 only result

---
 a_sync/task.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 032449c..ca34721 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -385,28 +385,28 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
 
     @ASyncMethodDescriptorSyncDefault
     async def max(self, pop: bool = True) -> V:
-        max = None
+        max = _NOTHING
         try:
             async for key, result in self.__aiter__(pop=pop):
-                if max is None or result > max:
+                if max is _NOTHING or result > max:
                     max = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
-        if max is None:
+        if max is _NOTHING:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
         return max
 
     @ASyncMethodDescriptorSyncDefault
     async def min(self, pop: bool = True) -> V:
         """Return the minimum result from the tasks in the mapping."""
-        min = None
+        min = _NOTHING
         try:
             async for key, result in self.__aiter__(pop=pop):
-                if min is None or result < min:
+                if min is _NOTHING or result < min:
                     min = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
-        if min is None:
+        if min is _NOTHING:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
         return min
 
@@ -667,6 +667,10 @@ def _yield(key: K, value: V, yields: Literal["keys", "both"]) -> Union[K, Tuple[
 class _EmptySequenceError(ValueError): ...
 
 
+_NOTHING = object()
+"""No result so far. A result can be None."""
+
+
 async def _yield_keys(
     iterable: AnyIterableOrAwaitableIterable[K], raise_if_empty: bool = True
 ) -> AsyncIterator[K]:
-- 
2.43.0


From f467af701b499f67583a48fdd469ac51dcc4f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:19 +0000
Subject: [PATCH 41/72] fix: a keyword-only argument named like a flag is
 refused like any other argument

---
 a_sync/a_sync/function.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 26d1407..723a82d 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -144,9 +144,9 @@ cdef void _cache(dict[uintptr_t, object] cache, object fn):
         pass
 
 cdef void _validate_argspec(fn: Callable):
-    fn_args = inspect.getfullargspec(fn)[0]
+    spec = inspect.getfullargspec(fn)
     for flag in VIABLE_FLAGS:
-        if flag in fn_args:
+        if flag in spec.args or flag in spec.kwonlyargs:
             raise RuntimeError(
                 f"{fn} must not have any arguments with the following names: {VIABLE_FLAGS}"
             )
-- 
2.43.0


From a890f5c7dad9f85b6602ade0ade8b5103b567b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:19 +0000
Subject: [PATCH 42/72] fix: the bound method of a synchronous instance can be
 mapped

---
 a_sync/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index ca34721..b783267 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -141,9 +141,9 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         self._wrapped_func = wrapped_func
         "The function used to create tasks for each key."
 
-        if isinstance(wrapped_func, ASyncMethodDescriptor) and not _kwargs.get_flag_name_legacy(
-            wrapped_func_kwargs
-        ):
+        if isinstance(
+            wrapped_func, (ASyncBoundMethod, ASyncMethodDescriptor)
+        ) and not _kwargs.get_flag_name_legacy(wrapped_func_kwargs):
             wrapped_func_kwargs["sync"] = False
         if wrapped_func_kwargs:
             self._wrapped_func_kwargs = wrapped_func_kwargs
-- 
2.43.0


From 19b1037b0d70069b735846cf95602a7c6cc97539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 43/72] fix: an idle thread of a PruningThreadPoolExecutor
 neither keeps a dropped executor alive nor fails on it

---
 a_sync/executor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 90d687e..f79bdda 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -319,6 +319,9 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                 # Let's suicide the thread.  # NOTE: NEW
                 executor = executor_reference()  # NOTE: NEW
 
+                if executor is None:
+                    # NOTE: the weakref callback wakes us up so we can exit
+                    continue
                 with executor._adjusting_lock:  # NOTE: NEW
                     # NOTE: We keep a minimum of one thread active to prevent locks
                     if len(executor) > 1:  # NOTE: NEW
@@ -328,6 +331,7 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                         # Let the executor know we have one less idle thread available
                         executor._idle_semaphore.acquire(blocking=False)  # NOTE: NEW
                         return  # NOTE: NEW
+                del executor
                 continue
 
             if work_item is not None:
-- 
2.43.0


From 269b63cf08188602d2bc5d4ce914e56c8be2f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 44/72] fix: PruningThreadPoolExecutor.shutdown() does not fail
 when a thread is pruned meanwhile

---
 a_sync/executor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index f79bdda..e92c693 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -326,7 +326,8 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                     # NOTE: We keep a minimum of one thread active to prevent locks
                     if len(executor) > 1:  # NOTE: NEW
                         t = threading.current_thread()  # NOTE: NEW
-                        executor._threads.remove(t)  # NOTE: NEW
+                        # NOTE: `shutdown` might be iterating over the current set
+                        executor._threads = executor._threads - {t}  # NOTE: NEW
                         thread._threads_queues.pop(t)  # NOTE: NEW
                         # Let the executor know we have one less idle thread available
                         executor._idle_semaphore.acquire(blocking=False)  # NOTE: NEW
-- 
2.43.0


From 90c450bcce7412ca7a9fecad9b10560df709849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 45/72] fix: pruned threads leave no idle counts behind and no
 work item waits for them

---
 a_sync/executor.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index e92c693..d2fceb8 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -310,11 +310,21 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                 executor._initializer_failed()
             return
 
+    idle = False  # NOTE: NEW
     try:
         while True:
             try:  # NOTE: NEW
-                work_item = work_queue.get(block=True, timeout=timeout)  # NOTE: NEW
+                work_item = work_queue.get(block=idle, timeout=timeout)  # NOTE: NEW
             except queue.Empty:  # NOTE: NEW
+                if not idle:
+                    # increment idle count
+                    # NOTE: only if there is nothing else to do, so there are never more idle counts than idle threads
+                    idle = True
+                    executor = executor_reference()
+                    if executor is not None:
+                        executor._idle_semaphore.release()
+                    del executor
+                    continue
                 # Its been 'timeout' seconds and there are no new work items.  # NOTE: NEW
                 # Let's suicide the thread.  # NOTE: NEW
                 executor = executor_reference()  # NOTE: NEW
@@ -324,7 +334,8 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                     continue
                 with executor._adjusting_lock:  # NOTE: NEW
                     # NOTE: We keep a minimum of one thread active to prevent locks
-                    if len(executor) > 1:  # NOTE: NEW
+                    # NOTE: If there is a work item, its submitter might count on this thread
+                    if len(executor) > 1 and work_queue.empty():  # NOTE: NEW
                         t = threading.current_thread()  # NOTE: NEW
                         # NOTE: `shutdown` might be iterating over the current set
                         executor._threads = executor._threads - {t}  # NOTE: NEW
@@ -335,16 +346,11 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                 del executor
                 continue
 
+            idle = False  # NOTE: NEW
             if work_item is not None:
                 work_item.run()
                 # Delete references to object. See issue16284
                 del work_item
-
-                # attempt to increment idle count
-                executor = executor_reference()
-                if executor is not None:
-                    executor._idle_semaphore.release()
-                del executor
                 continue
 
             executor = executor_reference()
-- 
2.43.0


From 609c9ee3cc1800cd1f36a43c275b8de480eef0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 46/72] fix: modifiers of a coroutine method or a property were
 applied twice, those of a sync property not at all

A class-level semaphore of 1 deadlocked every call, and a class-level rate limit let only half of the runs through.
---
 a_sync/a_sync/function.pyx |  5 +++++
 a_sync/a_sync/method.pyx   |  3 +++
 a_sync/a_sync/property.pyx | 10 ++++++----
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 723a82d..ca90421 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -210,6 +210,9 @@ class ASyncFunction(_ModifiedMixin, Generic[P, T]):
 
     # NOTE: We can't use __slots__ here because it breaks functools.update_wrapper
 
+    _is_modified: bool = False
+    """True if the async modifiers were already applied to the wrapped coroutine function, False otherwise."""
+
     @overload
     def __init__(self, fn: CoroFn[P, T], **modifiers: Unpack[ModifierKwargs]) -> None:
         """
@@ -829,6 +832,8 @@ class ASyncFunction(_ModifiedMixin, Generic[P, T]):
             - :meth:`ModifierManager.apply_sync_modifiers`
         """
         if self._async_def:
+            if self._is_modified:
+                return self.__wrapped__
             return self.modifiers.apply_async_modifiers(self.__wrapped__)  # type: ignore [arg-type]
         return self.modifiers.apply_sync_modifiers(self.__wrapped__)  # type: ignore [return-value]
 
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 16c9861..e4529c8 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -588,6 +588,9 @@ class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
         if isinstance(unbound, ASyncFunction):
             modifiers.update(unbound.modifiers)
             unbound = unbound.__wrapped__
+        elif async_def:
+            # NOTE: the descriptor already applied the async modifiers to its coroutine function
+            self._is_modified = True
         # NOTE: the wrapped function was validated when the descriptor was initialized
         ASyncFunction.__init__(self, unbound, _skip_validate=True, **modifiers)
         self._is_async_def = async_def
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 6efed83..286cd77 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -7,7 +7,7 @@ from typing_extensions import Unpack
 from a_sync import _smart
 from a_sync._typing import *
 from a_sync.a_sync import config
-from a_sync.a_sync._helpers cimport _asyncify, _await, get_event_loop
+from a_sync.a_sync._helpers cimport _await, get_event_loop
 from a_sync.a_sync._descriptor import ASyncDescriptor
 from a_sync.a_sync.function import (
     ASyncFunction,
@@ -79,15 +79,17 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
         cdef dict hidden_modifiers
         super().__init__(_fget, field_name, **modifiers)
         self.hidden_method_name = f"__{self.field_name}__"
-        hidden_modifiers = dict(self.modifiers)
-        hidden_modifiers["default"] = "async"
+        # NOTE: the other modifiers are applied to `self._fget`, they must not be applied a second time here
+        hidden_modifiers = dict(
+            config.null_modifiers, default="async", executor=self.modifiers.executor
+        )
         self.hidden_method_descriptor = HiddenMethodDescriptor(
             self.get, self.hidden_method_name, **hidden_modifiers
         )
         if asyncio.iscoroutinefunction(_fget):
             self._fget = self.__wrapped__
         else:
-            self._fget = _asyncify(self.__wrapped__, self.modifiers.executor)
+            self._fget = self._asyncify(self.__wrapped__)
 
     @overload
     def __get__(self, instance: None, owner: Type[I]) -> Self: ...
-- 
2.43.0


From c593482580b4c5729290e1ee1c861f824f0efafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 47/72] fix: a bound method with its own semaphore, limiter or
 cache lost their state when it was evicted

---
 a_sync/a_sync/method.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index e4529c8..de3c62d 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -270,6 +270,9 @@ cdef object _update_cache_timer(object descriptor, object instance, object bound
     """
     # Handler for popping unused bound methods from bound method cache
     cdef object loop
+    if bound._is_stateful:
+        # NOTE: a new bound method would start with an empty cache, an unused limiter and an unused semaphore
+        return
     if handle := bound._cache_handle:
         # NOTE: the time of a scheduled handle can't be changed, so `_pop_unused` will check this one
         bound._cache_expires = handle._loop.time() + _METHOD_CACHE_TTL
@@ -593,6 +596,10 @@ class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
             self._is_modified = True
         # NOTE: the wrapped function was validated when the descriptor was initialized
         ASyncFunction.__init__(self, unbound, _skip_validate=True, **modifiers)
+        self._is_stateful = not self._is_modified and (
+            self.modifiers.use_limiter or self.modifiers.use_semaphore or self.modifiers.use_cache
+        )
+        """True if this bound method has its own limiter, semaphore or cache, False otherwise."""
         self._is_async_def = async_def
         """True if `self.__wrapped__` is a coroutine function, False otherwise."""
         functools.update_wrapper(self, unbound)
-- 
2.43.0


From 7db5b2253da6933e6a22ea63484566833a8a0dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 48/72] fix: reading an ASyncFuture inside the event loop
 failed even after it was awaited, and RuntimeErrors of its awaitable were
 masked

---
 a_sync/future.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index baa1ae5..84255fa 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -126,12 +126,14 @@ def _materialize(meta: "ASyncFuture[T]") -> T:
     See Also:
         :class:`ASyncFuture`
     """
-    try:
-        return asyncio.get_event_loop().run_until_complete(meta)
-    except RuntimeError as e:
+    if meta.done():
+        return concurrent.futures.Future.result(meta)
+    loop = asyncio.get_event_loop()
+    if loop.is_running():
         raise RuntimeError(
-            f"{meta} result is not set and the event loop is running, you will need to await it first"
-        ) from e
+            f"{meta!r} result is not set and the event loop is running, you will need to await it first"
+        )
+    return loop.run_until_complete(meta)
 
 
 MetaNumeric = Union[Numeric, "ASyncFuture[int]", "ASyncFuture[float]", "ASyncFuture[Decimal]"]
-- 
2.43.0


From adb777a5232f72893cb77390a404572773e4110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 49/72] fix: awaiting an ASyncFuture that was cancelled or
 failed by its owner gave None

---
 a_sync/future.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index 84255fa..e9e0874 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -359,7 +359,8 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
             # NOTE: another awaiter might have set the result before us
             if not self.done():
                 self.set_result(result)
-        return self._result
+        # NOTE: this raises if this future was cancelled or an exception was set
+        return super().result()
 
     @property
     def __task__(self) -> "asyncio.Task[T]":
-- 
2.43.0


From 95fd981257ba1d6ea6b9822a48a49ccd1b04166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 50/72] fix: a method made by @future called an ASyncFuture on
 no instance when it was reached through its class

---
 a_sync/future.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index e9e0874..75677d9 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -1374,7 +1374,7 @@ class _ASyncFutureWrappedFn(Callable[P, ASyncFuture[T]]):
     def __get__(
         self, instance: I, owner: Type[I]
     ) -> Union[Self, "_ASyncFutureInstanceMethod[I, P, T]"]:
-        return self if owner is None else _ASyncFutureInstanceMethod(self, instance)
+        return self if instance is None else _ASyncFutureInstanceMethod(self, instance)
 
 
 @final
-- 
2.43.0


From 5fdd337b3c258e4658d4fa7f0e6210699f5ee2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 51/72] fix: a cancelled smart shield stayed a waiter of its
 inner task, a task that awaits a SmartFuture twice raised a KeyError in a
 callback

---
 a_sync/_smart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index c2eead6..e1793d3 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -132,7 +132,7 @@ class _SmartFutureMixin(Generic[T]):
             Automatically called when a waiter task completes.
         """
         if not self.done():
-            self._waiters.remove(waiter)
+            self._waiters.discard(waiter)
 
     def _self_done_cleanup_callback(self: Union["SmartFuture", "SmartTask"]) -> None:
         """
@@ -435,6 +435,8 @@ def shield(
     def _outer_done_callback(outer):
         if not inner.done():
             inner.remove_done_callback(_inner_done_callback)
+            if waiters is not None:
+                waiters.discard(outer)
 
     inner.add_done_callback(_inner_done_callback)
     outer.add_done_callback(_outer_done_callback)
-- 
2.43.0


From 40b3ae7921d1c456193f23dea1a025b5ad48e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 52/72] fix: the smart task factory refused the context that
 asyncio.Runner and create_task(context=...) pass

---
 a_sync/_smart.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index e1793d3..22f1f40 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -281,6 +281,7 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
         *,
         loop: Optional[asyncio.AbstractEventLoop] = None,
         name: Optional[str] = None,
+        **kwargs: Any,
     ) -> None:
         """
         Initialize the SmartTask with a coroutine and optional event loop.
@@ -289,6 +290,7 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
             coro: The coroutine to run in the task.
             loop: Optional; the event loop.
             name: Optional; the name of the task.
+            **kwargs: Any other keyword argument of :class:`asyncio.Task`, like `context`.
 
         Example:
             ```python
@@ -298,12 +300,14 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
         See Also:
             - :func:`asyncio.create_task`
         """
-        asyncio.Task.__init__(self, coro, loop=loop, name=name)
+        asyncio.Task.__init__(self, coro, loop=loop, name=name, **kwargs)
         self._waiters: Set["asyncio.Task[T]"] = set()
         self.add_done_callback(SmartTask._self_done_cleanup_callback)
 
 
-def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> SmartTask[T]:
+def smart_task_factory(
+    loop: asyncio.AbstractEventLoop, coro: Awaitable[T], **kwargs: Any
+) -> SmartTask[T]:
     """
     Task factory function that an event loop calls to create new tasks.
 
@@ -312,6 +316,7 @@ def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> S
     Args:
         loop: The event loop.
         coro: The coroutine to run in the task.
+        **kwargs: The keyword arguments that newer versions of asyncio pass, like `context`.
 
     Returns:
         A SmartTask instance running the provided coroutine.
@@ -328,7 +333,7 @@ def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> S
         - :func:`set_smart_task_factory`
         - :class:`SmartTask`
     """
-    return SmartTask(coro, loop=loop)
+    return SmartTask(coro, loop=loop, **kwargs)
 
 
 def set_smart_task_factory(loop: asyncio.AbstractEventLoop = None) -> None:
-- 
2.43.0


From c8bfa6afd86057d180b1cc59bc2f63e482d04dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 53/72] fix: repr() of a CounterLock with waiters raised an
 AttributeError, and so did its debug logs

---
 a_sync/primitives/locks/counter.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/primitives/locks/counter.pyx b/a_sync/primitives/locks/counter.pyx
index 9032c46..f8d811e 100644
--- a/a_sync/primitives/locks/counter.pyx
+++ b/a_sync/primitives/locks/counter.pyx
@@ -82,7 +82,7 @@ cdef class CounterLock(_DebugDaemonMixin):
             >>> repr(counter)
             '<CounterLock name=example_counter value=0 waiters={}>'
         """
-        cdef dict[long long, Py_ssize_t] waiters = {v: len(self._events[v]._waiters) for v in sorted(self._events)}
+        cdef dict[long long, Py_ssize_t] waiters = {v: len((<Event>self._events[v])._waiters) for v in sorted(self._events)}
         return "<CounterLock name={} value={} waiters={}>".format(self.__name.decode("utf-8"), self._value, waiters)
 
     cpdef bint is_ready(self, long long v):
@@ -205,7 +205,7 @@ cdef class CounterLock(_DebugDaemonMixin):
         while self._events:
             now = time(NULL)
             self.get_logger().debug(
-                "%s is still locked after %sm", self, round(now - start / 60, 2)
+                "%s is still locked after %sm", self, round((now - start) / 60, 2)
             )
             await asyncio.sleep(300)
 
-- 
2.43.0


From 6f6f2deed00fe434d4fe4bc5c1fcf8ab13e29ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 54/72] fix: the default mode of a class whose flag has no
 default was refused with debug logs only

---
 a_sync/a_sync/base.pyx | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 3723273..37e7b83 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -152,20 +152,19 @@ cdef str _get_a_sync_flag_name_from_class_def(object cls):
 
 cdef bint _a_sync_flag_default_value_from_signature(object cls):
     cdef object signature = _get_init_signature(cls)
-    if not c_logger.isEnabledFor(DEBUG):
-        # we can optimize this much better
-        return signature.parameters[_get_a_sync_flag_name_from_signature(cls, False)].default
-    
-    c_logger._log(
-        DEBUG, "checking `__init__` signature for default %s a_sync flag value", (cls, )
-    )
-    cdef str flag = _get_a_sync_flag_name_from_signature(cls, True)
+    cdef bint debug_logs = c_logger.isEnabledFor(DEBUG)
+    if debug_logs:
+        c_logger._log(
+            DEBUG, "checking `__init__` signature for default %s a_sync flag value", (cls, )
+        )
+    cdef str flag = _get_a_sync_flag_name_from_signature(cls, debug_logs)
     cdef object flag_value = signature.parameters[flag].default
     if flag_value is inspect._empty:  # type: ignore [attr-defined]
         raise NotImplementedError(
             "The implementation for 'cls' uses an arg to specify sync mode, instead of a kwarg. We are unable to proceed. I suppose we can extend the code to accept positional arg flags if necessary"
         )
-    c_logger._log(DEBUG, "%s defines %s, default value %s", (cls, flag, flag_value))
+    if debug_logs:
+        c_logger._log(DEBUG, "%s defines %s, default value %s", (cls, flag, flag_value))
     return flag_value
 
 
-- 
2.43.0


From dee92effd1d476b45f488eaa335f0721a97ecd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 55/72] fix: a generator method of a copied instance ran on the
 original

---
 a_sync/iter.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 5fa77c0..ada2ce1 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -524,9 +524,9 @@ class ASyncGeneratorFunction(Generic[P, T]):
             gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
             gen_func._cache_handle.cancel()
             return gen_func
-        try:
-            gen_func = instance.__dict__[self.field_name]
-        except KeyError:
+        gen_func = instance.__dict__.get(self.field_name)
+        # NOTE: if `instance` is a copy, the function was copied too but is bound to the original
+        if gen_func is None or gen_func.__weakself__() is not instance:
             gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
             instance.__dict__[self.field_name] = gen_func
         gen_func._cache_handle.cancel()
-- 
2.43.0


From e917fc3e89b55a0eb44dcf16cc40708f691f5643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 56/72] fix: an Event or CounterLock whose __init__ had not run
 crashed the interpreter when it was named

---
 a_sync/primitives/locks/counter.pyx | 4 ++--
 a_sync/primitives/locks/event.pyx   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/a_sync/primitives/locks/counter.pyx b/a_sync/primitives/locks/counter.pyx
index f8d811e..d756dac 100644
--- a/a_sync/primitives/locks/counter.pyx
+++ b/a_sync/primitives/locks/counter.pyx
@@ -83,7 +83,7 @@ cdef class CounterLock(_DebugDaemonMixin):
             '<CounterLock name=example_counter value=0 waiters={}>'
         """
         cdef dict[long long, Py_ssize_t] waiters = {v: len((<Event>self._events[v])._waiters) for v in sorted(self._events)}
-        return "<CounterLock name={} value={} waiters={}>".format(self.__name.decode("utf-8"), self._value, waiters)
+        return "<CounterLock name={} value={} waiters={}>".format((self.__name or b"").decode("utf-8"), self._value, waiters)
 
     cpdef bint is_ready(self, long long v):
         """A function that indicates whether the current counter value is greater than or equal to a given value."""
@@ -192,7 +192,7 @@ cdef class CounterLock(_DebugDaemonMixin):
 
     @property
     def _name(self) -> str:
-        return self.__name.decode("utf-8")
+        return (self.__name or b"").decode("utf-8")
 
     async def _debug_daemon(self) -> None:
         """
diff --git a/a_sync/primitives/locks/event.pyx b/a_sync/primitives/locks/event.pyx
index 4179b69..3cfa44e 100644
--- a/a_sync/primitives/locks/event.pyx
+++ b/a_sync/primitives/locks/event.pyx
@@ -153,7 +153,7 @@ cdef class CythonEvent(_DebugDaemonMixin):
 
     @property
     def _name(self) -> str:
-        return self.__name.decode("utf-8")
+        return (self.__name or b"").decode("utf-8")
     
     async def __wait(self, fut: asyncio.Future) -> Literal[True]:
         try:
-- 
2.43.0


From c3d6906581398218ef21b3e151e0ad55fefb12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 57/72] fix: copying or pickling an Event freed memory it did
 not own

---
 a_sync/primitives/locks/event.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/a_sync/primitives/locks/event.pyx b/a_sync/primitives/locks/event.pyx
index 3cfa44e..506bf51 100644
--- a/a_sync/primitives/locks/event.pyx
+++ b/a_sync/primitives/locks/event.pyx
@@ -29,6 +29,9 @@ cdef class CythonEvent(_DebugDaemonMixin):
     detailed information about the event state and waiters, which can be useful for
     diagnosing and debugging potential deadlocks.
     """
+    def __cinit__(self):
+        self._waiters = []
+
     def __init__(
         self,
         name: str = "",
@@ -44,7 +47,6 @@ cdef class CythonEvent(_DebugDaemonMixin):
             debug_daemon_interval (int): The interval in seconds for the debug daemon to log information.
             loop (Optional[asyncio.AbstractEventLoop]): The event loop to use.
         """
-        self._waiters = []
         #self._value = False
         if sys.version_info >= (3, 10):
             super().__init__()
-- 
2.43.0


From a2a6e4464559b39864c1b2b13fe27bd151096a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 58/72] fix: a generator method of a copied instance still ran
 on the original once the original's had been used

---
 a_sync/iter.pyx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index ada2ce1..9bcdb87 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -525,14 +525,31 @@ class ASyncGeneratorFunction(Generic[P, T]):
             gen_func._cache_handle.cancel()
             return gen_func
         gen_func = instance.__dict__.get(self.field_name)
-        # NOTE: if `instance` is a copy, the function was copied too but is bound to the original
-        if gen_func is None or gen_func.__weakself__() is not instance:
+        if gen_func is None:
+            gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
+            instance.__dict__[self.field_name] = gen_func
+        elif not isinstance(gen_func, ASyncGeneratorFunction) or gen_func.__weakself__ is None:
+            # somebody has replaced us on `instance`
+            return gen_func
+        elif gen_func.__weakself__() is not instance:
+            # `instance` is a copy: our function was copied with it but is bound to the original
             gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
             instance.__dict__[self.field_name] = gen_func
         gen_func._cache_handle.cancel()
         gen_func._cache_handle = self.__get_cache_handle(instance)
         return gen_func
 
+    # NOTE: with these we are a data descriptor. We must see every use of the function by `instance`, see `__get__`.
+
+    def __set__(self, instance: V, value: object) -> None:
+        instance.__dict__[self.field_name] = value
+
+    def __delete__(self, instance: V) -> None:
+        try:
+            del instance.__dict__[self.field_name]
+        except KeyError:
+            raise AttributeError(self.field_name) from None
+
     @property
     def __self__(self) -> object:
         cdef object instance
-- 
2.43.0


From f948a651bca040a6b2ce44c862158a8627c7328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 59/72] fix: the default modifiers of the environment were
 applied to the library's own aggregates

With A_SYNC_CACHE_TYPE=memory (or a ram cache size or ttl) Cls.method.any([...]) and the like raised TypeError
(unhashable list), and the aggregates of a TaskMapping returned their cached, stale results.
---
 a_sync/a_sync/_descriptor.py | 16 ++++++++++------
 a_sync/task.py               | 20 +++++++++++++-------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/a_sync/a_sync/_descriptor.py b/a_sync/a_sync/_descriptor.py
index 8c83812..5acb2e9 100644
--- a/a_sync/a_sync/_descriptor.py
+++ b/a_sync/a_sync/_descriptor.py
@@ -16,7 +16,7 @@ See Also:
 import functools
 
 from a_sync._typing import *
-from a_sync.a_sync import decorator
+from a_sync.a_sync import config, decorator
 from a_sync.a_sync.function import (
     ASyncFunction,
     ModifierManager,
@@ -138,6 +138,10 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
 
         return TaskMapping(self, *instances, **bound_method_kwargs)
 
+    def _aggregate(self, coro_fn: CoroFn[P, T]) -> ASyncFunction[P, T]:
+        # NOTE: the user's default modifiers are for the mapped function, they must not be applied to the aggregate as well
+        return decorator.a_sync(**dict(config.null_modifiers, default=self.default))(coro_fn)
+
     @functools.cached_property
     def all(self) -> ASyncFunction[Concatenate[AnyIterable[I], P], bool]:
         """
@@ -155,7 +159,7 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
             instance = MyClass()
             result = await instance.my_method.all([1, 2, 3])
         """
-        return decorator.a_sync(default=self.default)(self._all)
+        return self._aggregate(self._all)
 
     @functools.cached_property
     def any(self) -> ASyncFunction[Concatenate[AnyIterable[I], P], bool]:
@@ -174,7 +178,7 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
             instance = MyClass()
             result = await instance.my_method.any([-1, 0, 1])
         """
-        return decorator.a_sync(default=self.default)(self._any)
+        return self._aggregate(self._any)
 
     @functools.cached_property
     def min(self) -> ASyncFunction[Concatenate[AnyIterable[I], P], T]:
@@ -195,7 +199,7 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
             result = await instance.my_method.min([3, 1, 2])
             ```
         """
-        return decorator.a_sync(default=self.default)(self._min)
+        return self._aggregate(self._min)
 
     @functools.cached_property
     def max(self) -> ASyncFunction[Concatenate[AnyIterable[I], P], T]:
@@ -214,7 +218,7 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
             instance = MyClass()
             result = await instance.my_method.max([3, 1, 2])
         """
-        return decorator.a_sync(default=self.default)(self._max)
+        return self._aggregate(self._max)
 
     @functools.cached_property
     def sum(self) -> ASyncFunction[Concatenate[AnyIterable[I], P], T]:
@@ -235,7 +239,7 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
             result = await instance.my_method.sum([1, 2, 3])
             ```
         """
-        return decorator.a_sync(default=self.default)(self._sum)
+        return self._aggregate(self._sum)
 
     async def _all(
         self,
diff --git a/a_sync/task.py b/a_sync/task.py
index b783267..4ee8faa 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -18,7 +18,7 @@ import weakref
 import a_sync.asyncio
 from a_sync import exceptions
 from a_sync._typing import *
-from a_sync.a_sync import _kwargs
+from a_sync.a_sync import _kwargs, config
 from a_sync.a_sync.base import ASyncGenericBase
 from a_sync.a_sync.function import ASyncFunction
 from a_sync.a_sync.method import (
@@ -38,6 +38,12 @@ from a_sync.utils.iterators import as_yielded, exhaust_iterator
 logger = logging.getLogger(__name__)
 
 
+# NOTE: the user's default modifiers are for the mapped function, they must not be applied to the methods of the mapping as well
+_sync_default_method = functools.partial(
+    ASyncMethodDescriptorSyncDefault, **dict(config.null_modifiers, default="sync")
+)
+
+
 MappingFn = Callable[Concatenate[K, P], Awaitable[V]]
 
 
@@ -359,7 +365,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         finally:
             await self._if_pop_clear(pop)
 
-    @ASyncMethodDescriptorSyncDefault
+    @_sync_default_method
     async def all(self, pop: bool = True) -> bool:
         try:
             async for key, result in self.__aiter__(pop=pop):
@@ -371,7 +377,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         finally:
             await self._if_pop_clear(pop)
 
-    @ASyncMethodDescriptorSyncDefault
+    @_sync_default_method
     async def any(self, pop: bool = True) -> bool:
         try:
             async for key, result in self.__aiter__(pop=pop):
@@ -383,7 +389,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         finally:
             await self._if_pop_clear(pop)
 
-    @ASyncMethodDescriptorSyncDefault
+    @_sync_default_method
     async def max(self, pop: bool = True) -> V:
         max = _NOTHING
         try:
@@ -396,7 +402,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
         return max
 
-    @ASyncMethodDescriptorSyncDefault
+    @_sync_default_method
     async def min(self, pop: bool = True) -> V:
         """Return the minimum result from the tasks in the mapping."""
         min = _NOTHING
@@ -410,7 +416,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
         return min
 
-    @ASyncMethodDescriptorSyncDefault
+    @_sync_default_method
     async def sum(self, pop: bool = False) -> V:
         """Return the sum of the results from the tasks in the mapping."""
         retval = 0
@@ -450,7 +456,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 if task.done():
                     yield k, await task
 
-    @ASyncMethodDescriptorSyncDefault
+    @_sync_default_method
     async def gather(
         self,
         return_exceptions: bool = False,
-- 
2.43.0


From 48d45746c6fb4e1bf4c5c9d0b8b41175407222f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 60/72] fix: the hidden method of a property was named like its
 function, not like the property

---
 a_sync/a_sync/_meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/a_sync/a_sync/_meta.py b/a_sync/a_sync/_meta.py
index c4f460b..20e2d8b 100644
--- a/a_sync/a_sync/_meta.py
+++ b/a_sync/a_sync/_meta.py
@@ -130,6 +130,8 @@ class ASyncMeta(ABCMeta):
                         "since `%s` is a property, we will add a hidden dundermethod so you can still access it both sync and async",
                         attr_name,
                     )
+                    # NOTE the property is not necessarily named like its function
+                    attr_value.hidden_method_name = f"__{attr_name}__"
                     attrs[attr_value.hidden_method_name] = attr_value.hidden_method_descriptor
                     logger.debug(
                         "`%s.%s` is now %s",
-- 
2.43.0


From fb8a0f968db2702886ea0d5f03694b78d7de92dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 61/72] fix: a task mapping over the keys of another mapping
 took them for empty before they were loaded

---
 a_sync/task.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 4ee8faa..9cf30a3 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -689,12 +689,13 @@ async def _yield_keys(
     Yields:
         Keys extracted from the iterable.
     """
-    if not iterable:
-        if raise_if_empty:
-            raise _EmptySequenceError(iterable)
-    elif isinstance(iterable, AsyncIterable):
+    if isinstance(iterable, AsyncIterable):
+        # NOTE: an async iterable is not empty just because it is falsy, ie its `len` is the number of keys loaded so far
         async for key in iterable:
             yield key
+    elif not iterable:
+        if raise_if_empty:
+            raise _EmptySequenceError(iterable)
     elif isinstance(iterable, Iterable):
         for key in iterable:
             yield key
-- 
2.43.0


From ee5f68efc501070d72daee467ec4f26da3069835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 62/72] fix: a TypeError raised by a mapped function without a
 name was replaced by an AttributeError

---
 a_sync/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 9cf30a3..099a395 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -172,7 +172,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 except TypeError as e:
                     if __a_sync_recursion__ > 2 or (
                         # NOTE: the message starts with the qualname of the function
-                        f"{wrapped_func.__name__}() got multiple values for argument"
+                        f"{getattr(wrapped_func, '__name__', '')}() got multiple values for argument"
                         not in str(e)
                     ):
                         raise
-- 
2.43.0


From 027eb282f15da796b049d11ebf6c57f8f2628c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 63/72] fix: a task mapping kept its function alive forever and
 refused a function that is not hashable

---
 a_sync/task.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 099a395..2611201 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -706,16 +706,11 @@ async def _yield_keys(
         raise TypeError(iterable)
 
 
-__unwrapped = weakref.WeakKeyDictionary()
-
-
 def _unwrap(
     wrapped_func: Union[
         AnyFn[P, T], "ASyncMethodDescriptor[P, T]", _ASyncPropertyDescriptorBase[I, T]
     ]
 ) -> Callable[P, Awaitable[T]]:
-    if unwrapped := __unwrapped.get(wrapped_func):
-        return unwrapped
     if isinstance(wrapped_func, (ASyncBoundMethod, ASyncMethodDescriptor)):
         unwrapped = wrapped_func
     elif isinstance(wrapped_func, _ASyncPropertyDescriptorBase):
@@ -728,7 +723,7 @@ def _unwrap(
         )
     else:
         unwrapped = wrapped_func
-    __unwrapped[wrapped_func] = unwrapped
+    # NOTE: a callable need not be hashable or support weak references, and caching it here would keep it alive forever
     return unwrapped
 
 
-- 
2.43.0


From 22ff539df0b56168b25c6d7d1fd9fb6e6ceead6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 64/72] fix: a filter or a sorter over an iterator that is
 falsy yielded nothing

---
 a_sync/iter.pyx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 9bcdb87..3c93773 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -635,11 +635,12 @@ class ASyncFilter(_ASyncView[T]):
 
     async def __anext__(self) -> T:
         cdef object obj
-        if self.__aiterator__:
+        # NOTE: an iterator can be falsy
+        if self.__aiterator__ is not None:
             async for obj in self.__aiterator__:
                 if await self._check(obj):
                     return obj
-        elif self.__iterator__:
+        elif self.__iterator__ is not None:
             try:
                 for obj in self.__iterator__:
                     if await self._check(obj):
@@ -761,13 +762,13 @@ class ASyncSorter(_ASyncView[T]):
         if asyncio.iscoroutinefunction(self._function):
             items = []
             sort_tasks = []
-            if self.__aiterator__:
+            if self.__aiterator__ is not None:
                 async for obj in self.__aiterator__:
                     items.append(obj)
                     sort_tasks.append(
                         ccreate_task_simple(self._function(obj))
                     )
-            elif self.__iterator__:
+            elif self.__iterator__ is not None:
                 for obj in self.__iterator__:
                     items.append(obj)
                     sort_tasks.append(
@@ -781,7 +782,7 @@ class ASyncSorter(_ASyncView[T]):
             ):
                 yield obj
         else:
-            if self.__aiterator__:
+            if self.__aiterator__ is not None:
                 items = [obj async for obj in self.__aiterator__]
             else:
                 items = list(self.__iterator__)
-- 
2.43.0


From b31f728e31327c75732b4049564b7aa3c2865971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 65/72] fix: the repr of a filter or a sorter, and so the
 refusal of a consumed sorter, failed for a function without a name

---
 a_sync/iter.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 3c93773..d39b67d 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -630,7 +630,9 @@ class ASyncFilter(_ASyncView[T]):
 
     def __repr__(self) -> str:
         return "<ASyncFilter for iterator={} function={} at {}>".format(
-            self.__wrapped__, self._function.__name__, hex(id(self))
+            self.__wrapped__,
+            getattr(self._function, "__name__", self._function),
+            hex(id(self)),
         )
 
     async def __anext__(self) -> T:
@@ -739,7 +741,9 @@ class ASyncSorter(_ASyncView[T]):
             rep += " reversed"
         rep += " for iterator={}".format(self.__wrapped__)
         if self._function is not _key_if_no_key:
-            rep += " key={}".format(self._function.__name__)
+            rep += " key={}".format(
+                getattr(self._function, "__name__", self._function)
+            )
         rep += " at {}>".format(hex(id(self)))
         return rep
 
-- 
2.43.0


From 9a7efdb020874b42c0dfc76e87a056a88d6a009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 66/72] fix: a flag defined on a class was not found for the
 subclasses of its subclasses

---
 a_sync/a_sync/base.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 37e7b83..1a1776c 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -143,7 +143,7 @@ cdef str _get_a_sync_flag_name_from_class_def(object cls):
         return _parse_flag_name_from_list(cls, cls.__dict__)  # type: ignore [arg-type]
         # idk why __dict__ doesn't type check as a dict
     except exceptions.NoFlagsFound:
-        for base in cls.__bases__:
+        for base in cls.__mro__[1:]:
             with suppress(exceptions.NoFlagsFound):
                 return _parse_flag_name_from_list(cls, base.__dict__)  # type: ignore [arg-type]
                 # idk why __dict__ doesn't type check as a dict
@@ -205,7 +205,7 @@ cdef str _parse_flag_name_from_list(object cls, object items):
 
 cdef inline bint _get_a_sync_flag_value_from_class_def(object cls, str flag):
     cdef object spec
-    for spec in [cls, *cls.__bases__]:
+    for spec in cls.__mro__:
         if flag in spec.__dict__:
             return spec.__dict__[flag]
     raise exceptions.FlagNotDefined(cls, flag)
-- 
2.43.0


From 214a4e6f6600a0f312ffc42506a4d861e6222667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 67/72] fix: as_completed() of a mapping ignored a timeout of 0

---
 a_sync/asyncio/as_completed.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/asyncio/as_completed.pyx b/a_sync/asyncio/as_completed.pyx
index 652813a..3438e44 100644
--- a/a_sync/asyncio/as_completed.pyx
+++ b/a_sync/asyncio/as_completed.pyx
@@ -177,7 +177,7 @@ cdef object as_completed_mapping(
             __mapping_wrap(k, v, return_exceptions=return_exceptions)
             for k, v in mapping.items()
         ],
-        timeout=timeout or None,
+        timeout=timeout,
         aiter=aiter,
         tqdm=tqdm,
         **tqdm_kwargs
-- 
2.43.0


From a85c8200349011cadb81443d30f84cdf9fd6bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 68/72] fix: the debug log of an executor could not be
 formatted if an argument contained a %

---
 a_sync/executor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index d2fceb8..e3fc67a 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -156,16 +156,16 @@ class _AsyncExecutorMixin(concurrent.futures.Executor, _DebugDaemonMixin):
         else:
             fnid = fn
 
-        msg = f"%s processing %s{args}"
+        call = str(args)
         if kwargs:
-            msg = f"{msg[:-1]} {', '.join(f'{k}={v}' for k, v in kwargs.items())})"
+            call = f"{call[:-1]} {', '.join(f'{k}={v}' for k, v in kwargs.items())})"
         else:
-            msg = f"{msg[:-2]})"
+            call = f"{call[:-2]})"
 
         while not fut.done():
             await asyncio.sleep(15)
             if not fut.done():
-                self.logger.debug(msg, self, fnid)
+                self.logger.debug("%s processing %s%s", self, fnid, call)
 
 
 # Process
-- 
2.43.0


From 83cf4580b30e48b7b1e1785b11c6b76d31f99435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 69/72] fix: a singleton whose __init__ uses the instance of
 the other mode waited forever for its own lock

---
 a_sync/a_sync/_meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/_meta.py b/a_sync/a_sync/_meta.py
index 20e2d8b..5769d6a 100644
--- a/a_sync/a_sync/_meta.py
+++ b/a_sync/a_sync/_meta.py
@@ -179,7 +179,8 @@ class ASyncSingletonMeta(ASyncMeta):
     def __init__(cls, name: str, bases: Tuple[type, ...], namespace: Dict[str, Any]) -> None:
         cls.__instances: Dict[bool, object] = {}
         """Dictionary to store singleton instances."""
-        cls.__lock = threading.Lock()
+        # NOTE: the `__init__` for one mode may ask for the instance of the other mode
+        cls.__lock = threading.RLock()
         """Lock to ensure thread-safe instance creation."""
         super().__init__(name, bases, namespace)
 
-- 
2.43.0


From 4067e8640b8fafab269fcc78524aeee27bd651fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 70/72] fix: as_yielded and mappings took an iterator cut off
 by a cancellation for an exhausted one

---
 a_sync/utils/iterators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index ad84cab..f0cef6f 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -84,7 +84,8 @@ async def exhaust_iterators(
         *[exhaust_iterator(iterator, queue=queue) for iterator in iterators],
         return_exceptions=True,
     ):
-        if isinstance(x, Exception):
+        # NOTE: a `CancelledError` is no `Exception`, but an iterator that raised one did not end
+        if isinstance(x, BaseException):
             # raise it with its original traceback instead of from here
             raise x.with_traceback(x.__traceback__)
 
@@ -231,6 +232,8 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
     # NOTE: the queue is bound here because the name will be gone once the iteration has ended
     def _as_yielded_done_callback(t: asyncio.Task, queue: Queue = queue) -> None:
         if t.cancelled():
+            # NOTE: if it wasn't us who cancelled it, we are still waiting for items
+            queue.put_nowait(_Done(asyncio.CancelledError()))
             return
         if e := t.exception():
             traceback.extract_stack
-- 
2.43.0


From ce660ad4b5fd67ff531ff360059e29bbec8e3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 71/72] fix: apply_semaphore(semaphore=...) did not return a
 decorator but refused None as a function

---
 a_sync/a_sync/modifiers/semaphores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/a_sync/modifiers/semaphores.py b/a_sync/a_sync/modifiers/semaphores.py
index fe55419..f499199 100644
--- a/a_sync/a_sync/modifiers/semaphores.py
+++ b/a_sync/a_sync/modifiers/semaphores.py
@@ -137,7 +137,7 @@ def apply_semaphore(
         semaphore = coro_fn
         coro_fn = None
 
-    elif not asyncio.iscoroutinefunction(coro_fn):
+    elif coro_fn is not None and not asyncio.iscoroutinefunction(coro_fn):
         raise exceptions.FunctionNotAsync(coro_fn)
 
     # Create the semaphore if necessary
-- 
2.43.0


From 3d8e85b57f4596cf9f3f67a0ffd6cac9a2d83c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:38 +0000
Subject: [PATCH 72/72] fix: a replacement of a generator method on an instance
 was deleted five minutes after the method's last use

---
 a_sync/iter.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index d39b67d..871bc6d 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -536,7 +536,7 @@ class ASyncGeneratorFunction(Generic[P, T]):
             gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
             instance.__dict__[self.field_name] = gen_func
         gen_func._cache_handle.cancel()
-        gen_func._cache_handle = self.__get_cache_handle(instance)
+        gen_func._cache_handle = gen_func.__get_cache_handle(instance)
         return gen_func
 
     # NOTE: with these we are a data descriptor. We must see every use of the function by `instance`, see `__get__`.
@@ -564,9 +564,14 @@ class ASyncGeneratorFunction(Generic[P, T]):
     def __get_cache_handle(self, instance: object) -> asyncio.TimerHandle:
         # NOTE: we create a strong reference to instance here. I'm not sure if this is good or not but its necessary for now.
         return get_event_loop().call_later(
-            300, delattr, instance, self.field_name
+            300, self.__uncache, instance
         )
 
+    def __uncache(self, instance: object) -> None:
+        # NOTE: somebody might have replaced or deleted us in the meantime
+        if instance.__dict__.get(self.field_name) is self:
+            del instance.__dict__[self.field_name]
+
     def __cancel_cache_handle(self, instance: object) -> None:
         self._cache_handle.cancel()
 
-- 
2.43.0

