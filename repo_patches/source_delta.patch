From 64125ec153fef9b3f7f820046916178b006da0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:57 +0000
Subject: [PATCH 01/19] fix: auto-detach must dispose the upstream subscription
 when the observer terminates

Cancelling the token killed the agent before it could process the dispose
message, so the upstream subscription was never released.
---
 aioreactive/observers.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index d62ee76..2fe61ad 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -4,7 +4,7 @@ from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, C
 from typing import Any, TypeVar, cast
 
 from expression.core import MailboxProcessor, TailCall, tailrec_async
-from expression.system import AsyncDisposable, CancellationTokenSource, Disposable
+from expression.system import AsyncDisposable, Disposable
 
 from .msg import Msg
 from .notification import MsgKind, Notification, OnCompleted, OnError, OnNext
@@ -205,33 +205,31 @@ def auto_detach_observer(
     AsyncObserver[_TSource],
     Callable[[Coroutine[None, None, AsyncDisposable]], Coroutine[None, None, AsyncDisposable]],
 ]:
-    cts = CancellationTokenSource()
-    token = cts.token
-
     async def worker(inbox: MailboxProcessor[Msg[_TSource]]) -> None:
         @tailrec_async
         async def message_loop(
             disposables: list[AsyncDisposable],
+            is_disposed: bool,
         ) -> Any:
-            if token.is_cancellation_requested:
-                return
-
             cmd = await inbox.receive()
             match cmd:
                 case Msg(tag="disposable", disposable=disposable):
-                    disposables.append(disposable)
+                    if is_disposed:
+                        # The observer terminated before the subscription was available.
+                        await disposable.dispose_async()
+                    else:
+                        disposables.append(disposable)
                 case _:
                     for disp in disposables:
                         await disp.dispose_async()
-                    return
-            return TailCall[list[AsyncDisposable]](disposables)
+                    disposables, is_disposed = [], True
+            return TailCall[list[AsyncDisposable], bool](disposables, is_disposed)
 
-        await message_loop([])
+        await message_loop([], False)
 
-    agent = MailboxProcessor.start(worker, token)
+    agent = MailboxProcessor.start(worker)
 
     async def cancel() -> None:
-        cts.cancel()
         agent.post(Msg(dispose=True))
 
     canceller = AsyncDisposable.create(cancel)
-- 
2.43.0


From 73256c5e2aaaf9e3c7a72ec009ea51c8bf750192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:19 +0000
Subject: [PATCH 02/19] fix: safe observer must dispose upstream when the
 observer's asend raises

---
 aioreactive/observers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 2fe61ad..653f5c1 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -172,6 +172,7 @@ def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) ->
                     try:
                         await msg.accept_observer(obv)
                     except Exception as ex:
+                        await disposable.dispose_async()
                         await obv.athrow(ex)
                         running = False
                 elif msg.kind == MsgKind.ON_ERROR:
-- 
2.43.0


From a9a20db544f9d5baea9d6bd564b9c1daac09a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:22 +0000
Subject: [PATCH 03/19] fix: async iterator must release the producer of a
 terminal notification

The producer's athrow()/aclose() never returned once the consumer had
received the terminal, and cancelling the consumer cancelled the slot.
---
 aioreactive/observers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 653f5c1..f190677 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,3 +1,4 @@
+import asyncio
 import logging
 from asyncio import Future, iscoroutinefunction
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
@@ -71,14 +72,16 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         if self._subscription is None:
             self._subscription = await self._source.subscribe_async(self)
 
-        value = await self._push
+        # Do not cancel or consume the slot itself if the consumer is cancelled.
+        push = self._push
+        await asyncio.wait([push])
         self._push = Future()
         self._pull.set_result(True)
 
         # Wake up any awaiters
         for awaiter in self._awaiters[:1]:
             awaiter.set_result(True)
-        return value
+        return push.result()
 
     async def dispose_async(self) -> None:
         if self._subscription is not None:
-- 
2.43.0


From a15cb1a71171a1b525cb930554175366c4f6a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:25 +0000
Subject: [PATCH 04/19] fix: skip_last must not drop None values

---
 aioreactive/filtering.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 846f3ee..df2ba57 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -216,12 +216,9 @@ def skip_last(
             q: list[_TSource] = []
 
             async def asend(value: _TSource) -> None:
-                front: _TSource | None = None
                 q.append(value)
                 if len(q) > count:
                     front = q.pop(0)
-
-                if front is not None:
                     await safe_obv.asend(front)
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow, safe_obv.aclose)
-- 
2.43.0


From d985ed247132ec215824283bd7a06316ea184f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:29 +0000
Subject: [PATCH 05/19] fix: take_until must release the other subscription on
 termination

---
 aioreactive/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index df2ba57..8418ca7 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -319,7 +319,7 @@ def take_until(
                 await safe_obv.aclose()
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow)
-            sub2 = await pipe(obv, other.subscribe_async)
+            sub2 = await pipe(obv, other.subscribe_async, auto_detach)
             sub1 = await pipe(safe_obv, source.subscribe_async, auto_detach)
 
             return AsyncDisposable.composite(sub1, sub2)
-- 
2.43.0


From b9c175e4d4ed2486a22f33dc4ad294f38d7aeaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:33 +0000
Subject: [PATCH 06/19] fix: merge_inner must release the other inner
 subscriptions when one fails

---
 aioreactive/combine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index 7cdd42a..026d7e9 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -72,6 +72,7 @@ def merge_inner(
 
                     async def athrow(error: Exception) -> None:
                         await safe_obv.athrow(error)
+                        inbox.post(Msg(dispose=True))
 
                     async def aclose() -> None:
                         inbox.post(Msg(inner_completed=key))
-- 
2.43.0


From 01791c6304885e921a4107b4f8a864467e638ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:44 +0000
Subject: [PATCH 07/19] fix: async iterator must not lose the wake-up of a
 waiting producer

A producer that queued up after the consumer had taken the value, but before
the previous producer released the slot, was never woken.
---
 aioreactive/observers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index f190677..66e2618 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -58,13 +58,16 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._pull = Future()
         self._busy = False
 
+        # Wake up any awaiters
+        if self._awaiters:
+            self._awaiters.pop(0).set_result(True)
+
     async def _serialize_access(self) -> None:
         # Serialize producer event to the iterator
         while self._busy:
             fut: Future[bool] = Future()
             self._awaiters.append(fut)
             await fut
-            self._awaiters.remove(fut)
 
         self._busy = True
 
@@ -77,10 +80,6 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         await asyncio.wait([push])
         self._push = Future()
         self._pull.set_result(True)
-
-        # Wake up any awaiters
-        for awaiter in self._awaiters[:1]:
-            awaiter.set_result(True)
         return push.result()
 
     async def dispose_async(self) -> None:
-- 
2.43.0


From 7804046e6e75f8fb1bb373b5bc8dc447f82824e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:07 +0000
Subject: [PATCH 08/19] fix: switch_latest must complete, and forward only the
 most recent inner

It never completed when the outer completed while an inner was active or after
the last inner had completed, kept forwarding values and errors already queued
by a replaced inner, and left the active inner subscribed on error.
---
 aioreactive/transform.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 8a5eeab..ce3c19e 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -264,12 +264,17 @@ def switch_latest(
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
         safe_obv, auto_detach = auto_detach_observer(aobv)
 
+        latest_id = 0  # The id of the most recent inner observable
+
         def obv(mb: MailboxProcessor[Msg[_TSource]], id: int) -> AsyncObserver[_TSource]:
             async def asend(value: _TSource) -> None:
-                await safe_obv.asend(value)
+                if id == latest_id:
+                    await safe_obv.asend(value)
 
             async def athrow(error: Exception) -> None:
-                await safe_obv.athrow(error)
+                if id == latest_id:
+                    await safe_obv.athrow(error)
+                    mb.post(Msg(dispose=True))
 
             async def aclose() -> None:
                 pipe(
@@ -295,18 +300,20 @@ def switch_latest(
                         current, current_id = Some(inner), next_id
 
                     case Msg(tag="inner_completed", inner_completed=idx):
-                        if is_stopped and idx == current_id:
-                            await safe_obv.aclose()
-                            current, is_stopped = Nothing, True
+                        if idx == current_id:
+                            current = Nothing
+                            if is_stopped:
+                                await safe_obv.aclose()
 
                     case Msg(tag="completed"):
+                        is_stopped = True
                         if current.is_none():
                             await safe_obv.aclose()
 
                     case Msg(tag="dispose"):
                         if current.is_some():
                             await current.value.dispose_async()
-                        current, is_stopped = Nothing, True
+                        return None
                     case _:
                         raise ValueError(f"Unknown message: {cmd}")
 
@@ -317,6 +324,8 @@ def switch_latest(
         inner_agent = MailboxProcessor.start(worker)
 
         async def asend(xs: AsyncObservable[_TSource]) -> None:
+            nonlocal latest_id
+            latest_id += 1
             pipe(
                 Msg(inner_observable=xs),
                 inner_agent.post,
@@ -324,6 +333,7 @@ def switch_latest(
 
         async def athrow(error: Exception) -> None:
             await safe_obv.athrow(error)
+            inner_agent.post(Msg(dispose=True))
 
         async def aclose() -> None:
             inner_agent.post(Msg(completed=True))
-- 
2.43.0


From ca271fe9f65ca18b2136347bec5e822f9516aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:29 +0000
Subject: [PATCH 09/19] fix: catch must forward errors of the handler sequence,
 and retry must count attempts

catch() also caught errors of its own handler sequence, so an exhausted retry()
looped forever without ever delivering the error; retry() gave up after one
retry and shared its counter between subscriptions; and disposing released only
the first subscription.
---
 aioreactive/transform.py | 57 ++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index ce3c19e..bcfb9c5 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -410,29 +410,39 @@ def catch(
     def _catch(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
         async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
             disposable = AsyncDisposable.empty()
+            is_disposed = False
+            has_failed = False
 
-            async def action(source: AsyncObservable[_TSource]) -> None:
-                nonlocal disposable
-
-                async def asend(value: _TSource) -> None:
-                    await aobv.asend(value)
+            async def asend(value: _TSource) -> None:
+                await aobv.asend(value)
 
-                async def athrow(error: Exception) -> None:
-                    next_source = handler(error)
-                    await action(next_source)
+            async def athrow(error: Exception) -> None:
+                nonlocal disposable, has_failed
 
-                async def aclose() -> None:
-                    await aobv.aclose()
+                has_failed = True
+                next_source = handler(error)
+                await disposable.dispose_async()
+                disposable = await next_source.subscribe_async(aobv)
+                if is_disposed:
+                    await disposable.dispose_async()
 
-                _obv = AsyncAnonymousObserver(asend, athrow, aclose)
+            async def aclose() -> None:
+                await aobv.aclose()
 
-                await disposable.dispose_async()
-                subscription = await source.subscribe_async(_obv)
+            subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
+            if has_failed:
+                # The source failed while subscribing and has already been replaced.
+                await subscription.dispose_async()
+            else:
                 disposable = subscription
 
-            await action(source)
+            async def cancel() -> None:
+                nonlocal is_disposed
+
+                is_disposed = True
+                await disposable.dispose_async()
 
-            return AsyncDisposable.create(disposable.dispose_async)
+            return AsyncDisposable.create(cancel)
 
         return AsyncAnonymousObservable(subscribe_async)
 
@@ -443,18 +453,15 @@ def retry(
     retry_count: int,
 ) -> Callable[[AsyncObservable[_TSource]], AsyncObservable[_TSource]]:
     def _retry(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        count = retry_count
+        def attempt(remaining: int) -> AsyncObservable[_TSource]:
+            def factory(exn: Exception) -> AsyncObservable[_TSource]:
+                if remaining <= 0:
+                    return fail(exn)
+                return attempt(remaining - 1)
 
-        def factory(exn: Exception) -> AsyncObservable[_TSource]:
-            nonlocal count
-
-            if not count:
-                return fail(exn)
-            else:
-                count -= count
-                return source
+            return pipe(source, catch(factory))
 
-        return pipe(source, catch(factory))
+        return attempt(retry_count)
 
     return _retry
 
-- 
2.43.0


From 971577a70a75483df0318abece7532f0292970e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:59 +0000
Subject: [PATCH 10/19] fix: slicing must follow Python's slice semantics for
 every start and stop

[:0] yielded every element, [3:2] raised ValueError and [-3:2] counted stop from
the start of the taken tail.
---
 aioreactive/__init__.py  |  3 ++-
 aioreactive/filtering.py | 33 ++++++++++++++++++++++-----------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/aioreactive/__init__.py b/aioreactive/__init__.py
index a91330f..abce593 100644
--- a/aioreactive/__init__.py
+++ b/aioreactive/__init__.py
@@ -117,7 +117,8 @@ class AsyncRx(AsyncObservable[_TSource]):
         if isinstance(key, slice):
             start, stop, step = key.start, key.stop, key.step
         else:
-            start, stop, step = key, key + 1, 1
+            # The last element has no successor to stop at: `key + 1` would be the first element.
+            start, stop, step = key, key + 1 if key != -1 else None, 1
 
         return AsyncRx(pipe(self, _slice(start, stop, step or 1)))
 
diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 8418ca7..07adff6 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -362,18 +362,29 @@ def slice(
     """
 
     def _slice(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        nonlocal start
-
-        if start is not None:
-            if start < 0:
-                source = pipe(source, take_last(abs(start)))
-            else:
-                source = pipe(source, skip(start))
+        if start is not None and start < 0 and stop is not None and stop >= 0:
+            # The elements to keep are only known to end before `stop` by their index.
+            def before_stop(_: Any, i: int) -> bool:
+                return i < stop
+
+            source = pipe(
+                source,
+                zip_seq(seq.infinite),
+                take_last(abs(start)),
+                starfilter(before_stop),
+                map(seq.head),
+            )
+        else:
+            if start is not None:
+                if start < 0:
+                    source = pipe(source, take_last(abs(start)))
+                else:
+                    source = pipe(source, skip(start))
 
-        if stop is not None:
-            if stop > 0:
-                start = start or 0
-                source = pipe(source, take(stop - start))
+            if stop is None:
+                pass
+            elif stop >= 0:
+                source = pipe(source, take(max(stop - (start or 0), 0)))
             else:
                 source = pipe(source, skip_last(abs(stop)))
 
-- 
2.43.0


From 98656aef0d16508ca25ef28ca9b44352dfaeeed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:31 +0000
Subject: [PATCH 11/19] fix: from_iterable must deliver an error raised by the
 iterable

---
 aioreactive/create.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index ea0f4ef..3f331c3 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -167,16 +167,16 @@ def of_seq(xs: Iterable[TSource]) -> AsyncObservable[TSource]:
 
     async def worker(obv: AsyncObserver[TSource], token: CancellationToken) -> None:
         log.debug("of_seq:worker()")
-        for x in xs:
-            token.throw_if_cancellation_requested()
-            log.debug("of_seq:asend(%s)", x)
-
-            try:
+        try:
+            for x in xs:
+                if token.is_cancellation_requested:
+                    return
+                log.debug("of_seq:asend(%s)", x)
                 await obv.asend(x)
-            except Exception as ex:
-                await obv.athrow(ex)
-
-        await obv.aclose()
+        except Exception as ex:
+            await obv.athrow(ex)
+        else:
+            await obv.aclose()
 
     return of_async_worker(worker)
 
-- 
2.43.0


From 417f3351b11d8522997b56c36af34f8213a9694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:35 +0000
Subject: [PATCH 12/19] fix: from_async_iterable must deliver an error raised
 by the iterable

---
 aioreactive/create.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 3f331c3..5c62b8e 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -87,15 +87,15 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
         sub = AsyncDisposable.create(cancel)
 
         async def worker() -> None:
-            async for value in iterable:
-                try:
+            try:
+                async for value in iterable:
                     await observer.asend(value)
-                except Exception as ex:
-                    await observer.athrow(ex)
-                    return
-
-            await observer.aclose()
-            tasks.remove(task)
+            except Exception as ex:
+                await observer.athrow(ex)
+            else:
+                await observer.aclose()
+            finally:
+                tasks.discard(task)
 
         try:
             task = asyncio.create_task(worker())
-- 
2.43.0


From 3f9d7ac71f64901ba85cd81f7fde5612c57fb85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:38 +0000
Subject: [PATCH 13/19] fix: disposing one delay subscription must not cancel
 the others

---
 aioreactive/timeshift.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 913a643..1865665 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -47,10 +47,11 @@ def delay(
     Returns:
         Delayed stream.
     """
-    cts = CancellationTokenSource()
-    token = cts.token
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
+        cts = CancellationTokenSource()
+        token = cts.token
+
         def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], datetime]]) -> Awaitable[None]:
             @tailrec_async
             async def loop() -> TailCallResult[None, ...]:
-- 
2.43.0


From a132604850bbca637e47035decdfb89fad5bda98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:42 +0000
Subject: [PATCH 14/19] fix: disposing debounce must not deliver a completion

---
 aioreactive/timeshift.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 1865665..7b35517 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -19,7 +19,7 @@ from expression.system import CancellationTokenSource
 
 from .combine import with_latest_from
 from .create import interval
-from .notification import Notification, OnCompleted, OnError, OnNext
+from .notification import Notification, OnError, OnNext
 from .observables import AsyncAnonymousObservable
 from .observers import AsyncNotificationObserver, auto_detach_observer
 from .transform import map
@@ -108,6 +108,7 @@ def debounce(
         async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
             safe_obv, auto_detach = auto_detach_observer(aobv)
             infinite: Iterable[int] = seq.infinite
+            cts = CancellationTokenSource()
 
             async def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], int]]) -> None:
                 @tailrec_async
@@ -135,7 +136,7 @@ def debounce(
 
                 await message_loop(-1)
 
-            agent = MailboxProcessor.start(worker)
+            agent = MailboxProcessor.start(worker, cts.token)
 
             indexer = iter(infinite)
 
@@ -154,8 +155,8 @@ def debounce(
             dispose = await pipe(obv_, source.subscribe_async, auto_detach)
 
             async def cancel() -> None:
+                cts.cancel()
                 await dispose.dispose_async()
-                agent.post((OnCompleted, 0))
 
             return AsyncDisposable.create(cancel)
 
-- 
2.43.0


From 9ee907e459a4b6a3804db9ef90e50a3a8ab3f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:19 +0000
Subject: [PATCH 15/19] fix: scan must stop after delivering an accumulator
 error

It kept emitting values after the error and never released the source.
---
 aioreactive/transform.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index bcfb9c5..7f9c343 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -474,27 +474,36 @@ def _scan(
         async def subscribe_async(observer: AsyncObserver[_TResult]) -> AsyncDisposable:
             disposable: AsyncDisposable = AsyncDisposable.empty()
             current: _TResult = initial
+            is_stopped = False
 
             async def anext(value: _TSource) -> None:
-                nonlocal current
+                nonlocal current, is_stopped
+
+                if is_stopped:
+                    return
 
                 try:
                     intermediate = await accumulator(current, value)
                 except Exception as ex:
+                    is_stopped = True
                     await observer.athrow(ex)
+                    await disposable.dispose_async()
                 else:
                     current = intermediate
 
                     await observer.asend(current)
 
             async def athrow(exception: Exception) -> None:
-                await observer.athrow(exception)
+                if not is_stopped:
+                    await observer.athrow(exception)
 
             async def aclose() -> None:
-                await observer.aclose()
+                if not is_stopped:
+                    await observer.aclose()
 
-            await disposable.dispose_async()
             disposable = await obs.subscribe_async(anext, athrow, aclose)
+            if is_stopped:
+                await disposable.dispose_async()
 
             return disposable
 
-- 
2.43.0


From 2893d0137045f4f6dc9b9da8660777730b818567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:23 +0000
Subject: [PATCH 16/19] fix: single subject must deliver one terminal, and not
 hang when disposed

Concurrent aclose()/athrow() each delivered a terminal; athrow()/aclose() after
dispose, or a producer resumed after dispose, spun on a completed future and
blocked the event loop; and producers waiting for an observer were never woken
by dispose.
---
 aioreactive/subject.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index d3d7eb1..38b56f9 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -44,6 +44,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
             log.debug("AsyncSingleStream:asend:awaiting start")
             await self._wait
             log.debug("AsyncSingleStream:asend:awaiting:done")
+            self.check_disposed()
 
         if not self._is_stopped:
             await self._observer.asend(value)
@@ -51,26 +52,30 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncSingleStream:athrow()")
 
+        self.check_disposed()
+
         while self._observer is None:
             await self._wait
+            self.check_disposed()
 
-        self.check_disposed()
         if not self._is_stopped:
-            await self._observer.athrow(error)
             self._is_stopped = True
+            await self._observer.athrow(error)
 
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
 
+        self.check_disposed()
+
         while self._observer is None:
             log.debug("AsyncSingleStream:aclose:awaiting start")
             await self._wait
+            self.check_disposed()
 
-        self.check_disposed()
         if not self._is_stopped:
             log.debug("AsyncSingleStream:subscription disposed")
-            await self._observer.aclose()
             self._is_stopped = True
+            await self._observer.aclose()
 
     async def dispose_async(self) -> None:
         log.debug("AsyncSingleStream:dispose_async()")
@@ -78,6 +83,10 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self._observer = None
         self._is_disposed = True
 
+        # Wake up any producers waiting for an observer.
+        if not self._wait.done():
+            self._wait.set_result(True)
+
     async def subscribe_async(
         self,
         send: SendAsync[_TSource] | AsyncObserver[_TSource] | None = None,
-- 
2.43.0


From d43f6a14efef4aaf60a4d199d1bbb90b5277ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:43 +0000
Subject: [PATCH 17/19] fix: to_observable must not fail in its done callback,
 nor leak when disposed early

---
 aioreactive/leave.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aioreactive/leave.py b/aioreactive/leave.py
index 58ca389..23812d8 100644
--- a/aioreactive/leave.py
+++ b/aioreactive/leave.py
@@ -35,6 +35,7 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
 
     def subscribe(obv: ObserverBase[_TSource], scheduler: SchedulerBase | None = None) -> DisposableBase:
         subscription: AsyncDisposable | None = None
+        is_disposed = False
 
         async def start() -> None:
             nonlocal subscription
@@ -49,16 +50,21 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
                 obv.on_completed()
 
             subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
-            tasks.remove(task)
+            if is_disposed:
+                await subscription.dispose_async()
 
         task = asyncio.create_task(start())
         tasks.add(task)
-        task.add_done_callback(lambda _: tasks.remove(task))
+        task.add_done_callback(tasks.discard)
 
         def dispose() -> None:
+            nonlocal is_disposed
+
+            is_disposed = True
             if subscription:
                 task = asyncio.create_task(subscription.dispose_async())
                 tasks.add(task)
+                task.add_done_callback(tasks.discard)
 
         return Disposable(dispose)
 
-- 
2.43.0


From 0e27636bdd1bae2e21c969240c1be76ad5479d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:29 +0000
Subject: [PATCH 18/19] fix: AsyncSingleSubject releases waiting producers in
 call order

A call made after the observer subscribed could overtake producers that
were still waiting to be resumed; an aclose overtaking them dropped their
values.
---
 aioreactive/subject.py | 59 ++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 38b56f9..3444d40 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -25,7 +25,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     def __init__(self) -> None:
         super().__init__()
 
-        self._wait: Future[bool] = Future()
+        self._waiters: list[Future[bool]] = []
         self._observer: AsyncObserver[_TSource] | None = None
         self._is_disposed = False
         self._is_stopped = False
@@ -34,48 +34,55 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         if self._is_disposed:
             raise ObjectDisposedException()
 
-    async def asend(self, value: _TSource) -> None:
-        log.debug("AsyncSingleStream:asend(%s)", str(value))
+    def _wake_next(self) -> None:
+        # Producers are released one by one, in the order they started waiting.
+        if self._waiters and not self._waiters[0].done():
+            self._waiters[0].set_result(True)
 
+    async def _wait_for_observer(self) -> AsyncObserver[_TSource]:
         self.check_disposed()
 
-        # AsyncSingleStreams are cold and will await a sink.
-        while self._observer is None:
-            log.debug("AsyncSingleStream:asend:awaiting start")
-            await self._wait
-            log.debug("AsyncSingleStream:asend:awaiting:done")
+        if self._observer is None or self._waiters:
+            waiter: Future[bool] = Future()
+            self._waiters.append(waiter)
+            try:
+                await waiter
+            finally:
+                self._waiters.remove(waiter)
+                if self._observer is not None or self._is_disposed:
+                    self._wake_next()
             self.check_disposed()
 
+        assert self._observer is not None
+        return self._observer
+
+    async def asend(self, value: _TSource) -> None:
+        log.debug("AsyncSingleStream:asend(%s)", str(value))
+
+        # AsyncSingleStreams are cold and will await a sink.
+        observer = await self._wait_for_observer()
+
         if not self._is_stopped:
-            await self._observer.asend(value)
+            await observer.asend(value)
 
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncSingleStream:athrow()")
 
-        self.check_disposed()
-
-        while self._observer is None:
-            await self._wait
-            self.check_disposed()
+        observer = await self._wait_for_observer()
 
         if not self._is_stopped:
             self._is_stopped = True
-            await self._observer.athrow(error)
+            await observer.athrow(error)
 
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
 
-        self.check_disposed()
-
-        while self._observer is None:
-            log.debug("AsyncSingleStream:aclose:awaiting start")
-            await self._wait
-            self.check_disposed()
+        observer = await self._wait_for_observer()
 
         if not self._is_stopped:
             log.debug("AsyncSingleStream:subscription disposed")
             self._is_stopped = True
-            await self._observer.aclose()
+            await observer.aclose()
 
     async def dispose_async(self) -> None:
         log.debug("AsyncSingleStream:dispose_async()")
@@ -83,9 +90,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self._observer = None
         self._is_disposed = True
 
-        # Wake up any producers waiting for an observer.
-        if not self._wait.done():
-            self._wait.set_result(True)
+        self._wake_next()
 
     async def subscribe_async(
         self,
@@ -96,9 +101,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         """Start streaming."""
         self.check_disposed()
         self._observer = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
-
-        if not self._wait.done():
-            self._wait.set_result(True)
+        self._wake_next()
 
         return AsyncDisposable.create(self.dispose_async)
 
-- 
2.43.0


From 55a373585a69dcbad2c703dd55a3c015c6b17bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:34 +0000
Subject: [PATCH 19/19] fix: AsyncAwaitableObserver raises InvalidStateError
 into the source when its awaiter was cancelled or timed out

---
 aioreactive/observers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 66e2618..dcd1070 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -295,7 +295,8 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        self.set_exception(error)
+        if not self.done():
+            self.set_exception(error)
         await self._athrow(error)
 
     async def aclose(self) -> None:
@@ -307,7 +308,9 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        if self._has_value:
+        if self.done():
+            pass  # The awaiter was cancelled or timed out
+        elif self._has_value:
             self.set_result(self._last_value)
         else:
             self.cancel()
-- 
2.43.0

