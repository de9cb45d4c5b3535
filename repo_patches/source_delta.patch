From c7759209cb744aec54f9d92029f6bfddb7a000ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:34 +0000
Subject: [PATCH 01/46] fix: skip_last drops elements that are None

---
 aioreactive/filtering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 846f3ee..ad0a548 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -216,13 +216,9 @@ def skip_last(
             q: list[_TSource] = []
 
             async def asend(value: _TSource) -> None:
-                front: _TSource | None = None
                 q.append(value)
                 if len(q) > count:
-                    front = q.pop(0)
-
-                if front is not None:
-                    await safe_obv.asend(front)
+                    await safe_obv.asend(q.pop(0))
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow, safe_obv.aclose)
             return await pipe(obv, source.subscribe_async, auto_detach)
-- 
2.43.0


From 2e8b3d6f995f55605fe3991bb11bc0037a1f1a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:21 +0000
Subject: [PATCH 02/46] fix: scan keeps emitting after its accumulator has
 failed

---
 aioreactive/transform.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 8a5eeab..59191a4 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -457,27 +457,37 @@ def _scan(
         async def subscribe_async(observer: AsyncObserver[_TResult]) -> AsyncDisposable:
             disposable: AsyncDisposable = AsyncDisposable.empty()
             current: _TResult = initial
+            is_stopped = False
 
             async def anext(value: _TSource) -> None:
-                nonlocal current
+                nonlocal current, is_stopped
+
+                if is_stopped:
+                    return
 
                 try:
                     intermediate = await accumulator(current, value)
                 except Exception as ex:
+                    is_stopped = True
                     await observer.athrow(ex)
+                    await disposable.dispose_async()
                 else:
                     current = intermediate
 
                     await observer.asend(current)
 
             async def athrow(exception: Exception) -> None:
-                await observer.athrow(exception)
+                if not is_stopped:
+                    await observer.athrow(exception)
 
             async def aclose() -> None:
-                await observer.aclose()
+                if not is_stopped:
+                    await observer.aclose()
 
             await disposable.dispose_async()
             disposable = await obs.subscribe_async(anext, athrow, aclose)
+            if is_stopped:
+                await disposable.dispose_async()
 
             return disposable
 
-- 
2.43.0


From 237bf578a704e36f36af3ffc10326a98eaf66632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:44 +0000
Subject: [PATCH 03/46] fix: catch leaks the handler subscription and
 re-handles its errors forever

---
 aioreactive/transform.py | 47 ++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 59191a4..2809a88 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -400,29 +400,48 @@ def catch(
     def _catch(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
         async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
             disposable = AsyncDisposable.empty()
+            is_caught = False
+            is_disposed = False
 
-            async def action(source: AsyncObservable[_TSource]) -> None:
-                nonlocal disposable
+            async def asend(value: _TSource) -> None:
+                await aobv.asend(value)
 
-                async def asend(value: _TSource) -> None:
-                    await aobv.asend(value)
+            async def athrow(error: Exception) -> None:
+                nonlocal disposable, is_caught
 
-                async def athrow(error: Exception) -> None:
-                    next_source = handler(error)
-                    await action(next_source)
+                is_caught = True
+                await disposable.dispose_async()
+                if is_disposed:
+                    return
 
-                async def aclose() -> None:
-                    await aobv.aclose()
+                try:
+                    subscription = await handler(error).subscribe_async(aobv)
+                except Exception as ex:
+                    await aobv.athrow(ex)
+                    return
 
-                _obv = AsyncAnonymousObserver(asend, athrow, aclose)
+                disposable = subscription
+                if is_disposed:
+                    await subscription.dispose_async()
 
-                await disposable.dispose_async()
-                subscription = await source.subscribe_async(_obv)
+            async def aclose() -> None:
+                await aobv.aclose()
+
+            _obv = AsyncAnonymousObserver(asend, athrow, aclose)
+
+            subscription = await source.subscribe_async(_obv)
+            if is_caught:
+                await subscription.dispose_async()
+            else:
                 disposable = subscription
 
-            await action(source)
+            async def cancel() -> None:
+                nonlocal is_disposed
+
+                is_disposed = True
+                await disposable.dispose_async()
 
-            return AsyncDisposable.create(disposable.dispose_async)
+            return AsyncDisposable.create(cancel)
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From f27dde57da835074b530402109db54c502654b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:44 +0000
Subject: [PATCH 04/46] fix: retry ignores its count and livelocks on a source
 that keeps failing

---
 aioreactive/transform.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 2809a88..3a0170d 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -18,7 +18,6 @@ from expression.core import (
 from expression.system import AsyncDisposable
 
 from .combine import merge_inner, zip_seq
-from .create import fail
 from .msg import (
     Key,
     Msg,
@@ -452,16 +451,11 @@ def retry(
     retry_count: int,
 ) -> Callable[[AsyncObservable[_TSource]], AsyncObservable[_TSource]]:
     def _retry(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        count = retry_count
+        if retry_count <= 0:
+            return source
 
-        def factory(exn: Exception) -> AsyncObservable[_TSource]:
-            nonlocal count
-
-            if not count:
-                return fail(exn)
-            else:
-                count -= count
-                return source
+        def factory(_: Exception) -> AsyncObservable[_TSource]:
+            return pipe(source, retry(retry_count - 1))
 
         return pipe(source, catch(factory))
 
-- 
2.43.0


From 4d35895b001c451fe7f77c4e4e87f8d5e1614109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:53 +0000
Subject: [PATCH 05/46] fix: disposed sources keep delivering queued values and
 a made-up completion

---
 aioreactive/create.py    |  2 +-
 aioreactive/observers.py | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index ea0f4ef..8cbb70e 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -48,7 +48,7 @@ def of_async_worker(worker: Callable[[AsyncObserver[Any], CancellationToken], Aw
     async def subscribe_async(aobv: AsyncObserver[Any]) -> AsyncDisposable:
         log.debug("of_async_worker:subscribe_async()")
         disposable, token = canceller()
-        safe_obv = safe_observer(aobv, disposable)
+        safe_obv = safe_observer(aobv, disposable, token)
 
         aiotools.start(worker(safe_obv, token), token)
         return disposable
diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index d62ee76..02a8f84 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -4,7 +4,7 @@ from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, C
 from typing import Any, TypeVar, cast
 
 from expression.core import MailboxProcessor, TailCall, tailrec_async
-from expression.system import AsyncDisposable, CancellationTokenSource, Disposable
+from expression.system import AsyncDisposable, CancellationToken, CancellationTokenSource, Disposable
 
 from .msg import Msg
 from .notification import MsgKind, Notification, OnCompleted, OnError, OnNext
@@ -148,7 +148,11 @@ def noop() -> AsyncObserver[Any]:
     return AsyncAnonymousObserver(anoop, anoop, anoop)
 
 
-def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) -> AsyncObserver[_TSource]:
+def safe_observer(
+    obv: AsyncObserver[_TSource],
+    disposable: AsyncDisposable,
+    token: CancellationToken | None = None,
+) -> AsyncObserver[_TSource]:
     """Safe observer that wraps the given observer.
 
     Makes sure that
@@ -162,12 +166,18 @@ def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) ->
     Args:
         obv: Observer to serialize access to
         disposable: Disposable to dispose when the observer closes.
+        token: Optional token that is cancelled when the subscription is
+            disposed. Notifications that are still waiting to be
+            delivered by then will be dropped.
     """
 
     async def worker(inbox: MailboxProcessor[Notification[_TSource]]) -> None:
         async def message_loop(running: bool) -> None:
             while running:
                 msg = await inbox.receive()
+                if token is not None and token.is_cancellation_requested:
+                    return
+
                 if msg.kind == MsgKind.ON_NEXT:
                     try:
                         await msg.accept_observer(obv)
-- 
2.43.0


From e564e62e2a407dc9c97e9349a88d67abc14cddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:53 +0000
Subject: [PATCH 06/46] fix: auto-detach never disposes the upstream
 subscriptions

---
 aioreactive/observers.py | 38 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 02a8f84..6018a49 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -3,10 +3,9 @@ from asyncio import Future, iscoroutinefunction
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
-from expression.core import MailboxProcessor, TailCall, tailrec_async
+from expression.core import MailboxProcessor
 from expression.system import AsyncDisposable, CancellationToken, CancellationTokenSource, Disposable
 
-from .msg import Msg
 from .notification import MsgKind, Notification, OnCompleted, OnError, OnNext
 from .types import AsyncObservable, AsyncObserver
 from .utils import anoop
@@ -217,41 +216,24 @@ def auto_detach_observer(
 ]:
     cts = CancellationTokenSource()
     token = cts.token
-
-    async def worker(inbox: MailboxProcessor[Msg[_TSource]]) -> None:
-        @tailrec_async
-        async def message_loop(
-            disposables: list[AsyncDisposable],
-        ) -> Any:
-            if token.is_cancellation_requested:
-                return
-
-            cmd = await inbox.receive()
-            match cmd:
-                case Msg(tag="disposable", disposable=disposable):
-                    disposables.append(disposable)
-                case _:
-                    for disp in disposables:
-                        await disp.dispose_async()
-                    return
-            return TailCall[list[AsyncDisposable]](disposables)
-
-        await message_loop([])
-
-    agent = MailboxProcessor.start(worker, token)
+    disposables: list[AsyncDisposable] = []
 
     async def cancel() -> None:
         cts.cancel()
-        agent.post(Msg(dispose=True))
+        for disp in disposables:
+            await disp.dispose_async()
 
     canceller = AsyncDisposable.create(cancel)
-    safe_obv = safe_observer(obv, canceller)
+    safe_obv = safe_observer(obv, canceller, token)
 
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
         disposable = await async_disposable
-        agent.post(Msg(disposable=disposable))
-        return disposable
+        if token.is_cancellation_requested:
+            await disposable.dispose_async()
+        else:
+            disposables.append(disposable)
+        return canceller
 
     return safe_obv, auto_detach
 
-- 
2.43.0


From 025101e0d3818bac7c3a258d14999cd6587b1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:53 +0000
Subject: [PATCH 07/46] fix: upstream subscription survives a failing observer

---
 aioreactive/observers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 6018a49..16b42b8 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -181,6 +181,7 @@ def safe_observer(
                     try:
                         await msg.accept_observer(obv)
                     except Exception as ex:
+                        await disposable.dispose_async()
                         await obv.athrow(ex)
                         running = False
                 elif msg.kind == MsgKind.ON_ERROR:
-- 
2.43.0


From 4bc5f76ea77853c7ebda4dfa21688ddbb339e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:53 +0000
Subject: [PATCH 08/46] fix: merge_inner leaves inner sources subscribed after
 it has ended

---
 aioreactive/combine.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index 7cdd42a..7d49073 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -144,13 +144,17 @@ def merge_inner(
                 agent.post(Msg(completed=True))
 
             obv = AsyncAnonymousObserver(asend, athrow, aclose)
-            dispose = await auto_detach(source.subscribe_async(obv))
 
-            async def cancel() -> None:
-                await dispose.dispose_async()
-                agent.post(Msg(dispose=True))
+            async def subscribe() -> AsyncDisposable:
+                dispose = await source.subscribe_async(obv)
+
+                async def cancel() -> None:
+                    await dispose.dispose_async()
+                    agent.post(Msg(dispose=True))
+
+                return AsyncDisposable.create(cancel)
 
-            return AsyncDisposable.create(cancel)
+            return await auto_detach(subscribe())
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From dfaaf2ec4ea1e42e0ee69b18e016a34068cba671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:38 +0000
Subject: [PATCH 09/46] fix: an inner source that cannot be subscribed kills
 merge_inner silently

---
 aioreactive/combine.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index 7d49073..b6806df 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -78,12 +78,19 @@ def merge_inner(
 
                     return AsyncAnonymousObserver(asend, athrow, aclose)
 
+                async def subscribe_inner(xs: AsyncObservable[_TSource], key: Key) -> AsyncDisposable:
+                    try:
+                        return await xs.subscribe_async(obv(key))
+                    except Exception as ex:
+                        await safe_obv.athrow(ex)
+                        return AsyncDisposable.empty()
+
                 async def update(msg: Msg[_TSource], model: Model[_TSource]) -> Model[_TSource]:
                     # log.debug("update: %s, model: %s", msg, model)
                     match msg:
                         case Msg(tag="inner_observable", inner_observable=xs):
                             if max_concurrent == 0 or len(model.subscriptions) < max_concurrent:
-                                inner = await xs.subscribe_async(obv(model.key))
+                                inner = await subscribe_inner(xs, model.key)
                                 return model.replace(
                                     subscriptions=model.subscriptions.add(model.key, inner),
                                     key=Key(model.key + 1),
@@ -94,7 +101,7 @@ def merge_inner(
                             subscriptions = model.subscriptions.remove(key)
                             if len(model.queue):
                                 xs = model.queue[0]
-                                inner = await xs.subscribe_async(obv(model.key))
+                                inner = await subscribe_inner(xs, model.key)
 
                                 return model.replace(
                                     subscriptions=subscriptions.add(model.key, inner),
-- 
2.43.0


From 703eab181e774234e7d1911bfc113946b8159c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:56 +0000
Subject: [PATCH 10/46] fix: switch_latest never completes, leaks its inner
 source and loses subscribe errors

---
 aioreactive/transform.py | 43 +++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 3a0170d..981b4b3 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -262,13 +262,16 @@ def switch_latest(
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
         safe_obv, auto_detach = auto_detach_observer(aobv)
+        latest_id = 0
 
         def obv(mb: MailboxProcessor[Msg[_TSource]], id: int) -> AsyncObserver[_TSource]:
             async def asend(value: _TSource) -> None:
-                await safe_obv.asend(value)
+                if id == latest_id:
+                    await safe_obv.asend(value)
 
             async def athrow(error: Exception) -> None:
-                await safe_obv.athrow(error)
+                if id == latest_id:
+                    await safe_obv.athrow(error)
 
             async def aclose() -> None:
                 pipe(
@@ -283,29 +286,37 @@ def switch_latest(
             async def message_loop(
                 current: Option[AsyncDisposable], is_stopped: bool, current_id: int
             ) -> TailCallResult[None, [Option[AsyncDisposable], bool, int]]:
+                nonlocal latest_id
                 cmd = await inbox.receive()
 
                 match cmd:
                     case Msg(tag="inner_observable", inner_observable=xs):
                         next_id = current_id + 1
+                        latest_id = next_id
                         for disp in current.to_list():
                             await disp.dispose_async()
-                        inner = await xs.subscribe_async(obv(inbox, next_id))
+                        try:
+                            inner = await xs.subscribe_async(obv(inbox, next_id))
+                        except Exception as ex:
+                            await safe_obv.athrow(ex)
+                            inner = AsyncDisposable.empty()
                         current, current_id = Some(inner), next_id
 
                     case Msg(tag="inner_completed", inner_completed=idx):
-                        if is_stopped and idx == current_id:
-                            await safe_obv.aclose()
-                            current, is_stopped = Nothing, True
+                        if idx == current_id:
+                            if is_stopped:
+                                await safe_obv.aclose()
+                            current = Nothing
 
                     case Msg(tag="completed"):
                         if current.is_none():
                             await safe_obv.aclose()
+                        is_stopped = True
 
                     case Msg(tag="dispose"):
                         if current.is_some():
                             await current.value.dispose_async()
-                        current, is_stopped = Nothing, True
+                        return None
                     case _:
                         raise ValueError(f"Unknown message: {cmd}")
 
@@ -328,17 +339,17 @@ def switch_latest(
             inner_agent.post(Msg(completed=True))
 
         _obv = AsyncAnonymousObserver(asend, athrow, aclose)
-        dispose = await pipe(
-            _obv,
-            source.subscribe_async,
-            auto_detach,
-        )
 
-        async def cancel() -> None:
-            await dispose.dispose_async()
-            inner_agent.post(Msg(dispose=True))
+        async def subscribe() -> AsyncDisposable:
+            dispose = await source.subscribe_async(_obv)
+
+            async def cancel() -> None:
+                await dispose.dispose_async()
+                inner_agent.post(Msg(dispose=True))
+
+            return AsyncDisposable.create(cancel)
 
-        return AsyncDisposable.create(cancel)
+        return await auto_detach(subscribe())
 
     return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 604904fdf372ac84baa562c41bc3ce3140fd9326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:56 +0000
Subject: [PATCH 11/46] fix: take_until leaves the other source subscribed
 after it has ended

---
 aioreactive/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index ad0a548..c056b4e 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -318,7 +318,7 @@ def take_until(
                 await safe_obv.aclose()
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow)
-            sub2 = await pipe(obv, other.subscribe_async)
+            sub2 = await pipe(obv, other.subscribe_async, auto_detach)
             sub1 = await pipe(safe_obv, source.subscribe_async, auto_detach)
 
             return AsyncDisposable.composite(sub1, sub2)
-- 
2.43.0


From 3a8a6e961ec3e752e97233b38e00f3863a731ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:56 +0000
Subject: [PATCH 12/46] fix: disposing one subscription of delay stops all of
 them for good

---
 aioreactive/timeshift.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 913a643..1865665 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -47,10 +47,11 @@ def delay(
     Returns:
         Delayed stream.
     """
-    cts = CancellationTokenSource()
-    token = cts.token
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
+        cts = CancellationTokenSource()
+        token = cts.token
+
         def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], datetime]]) -> Awaitable[None]:
             @tailrec_async
             async def loop() -> TailCallResult[None, ...]:
-- 
2.43.0


From a36cf0edcd619dae136ceb2ce3732f4019d0cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:18 +0000
Subject: [PATCH 13/46] fix: delay loses an exception raised downstream

---
 aioreactive/timeshift.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 1865665..113c060 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -68,7 +68,12 @@ def delay(
                 async def matcher() -> None:
                     match ns:
                         case OnNext(value=x):
-                            await aobv.asend(x)
+                            try:
+                                await aobv.asend(x)
+                            except Exception as ex:
+                                await subscription.dispose_async()
+                                await aobv.athrow(ex)
+                                cts.cancel()
                             return
                         case OnError(exception=err):
                             await aobv.athrow(err)
@@ -82,6 +87,7 @@ def delay(
 
             return asyncio.ensure_future(loop())
 
+        subscription = AsyncDisposable.empty()
         agent = MailboxProcessor.start(worker, token)
 
         async def fn(ns: Notification[_TSource]) -> None:
@@ -90,6 +96,8 @@ def delay(
 
         obv: AsyncNotificationObserver[_TSource] = AsyncNotificationObserver(fn)
         subscription = await source.subscribe_async(obv)
+        if token.is_cancellation_requested:
+            await subscription.dispose_async()
 
         async def cancel() -> None:
             log.debug("delay:cancel()")
-- 
2.43.0


From e1674d840be4b1fb79b9f2ee5dd17542431370c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:22 +0000
Subject: [PATCH 14/46] fix: interval loses an exception raised downstream

---
 aioreactive/create.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 8cbb70e..6b5dc03 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -213,7 +213,11 @@ def interval(seconds: float, period: float) -> AsyncObservable[int]:
         @tailrec_async
         async def handler(seconds: float, next: int) -> "TailCallResult[None, [float, int]]":
             await asyncio.sleep(seconds)
-            await aobv.asend(next)
+            try:
+                await aobv.asend(next)
+            except Exception as ex:
+                await aobv.athrow(ex)
+                return None
 
             if not period:
                 await aobv.aclose()
-- 
2.43.0


From 0b68a9b30f789077b3f9f8bef73d6ddeea958911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:25 +0000
Subject: [PATCH 15/46] fix: of_seq loses an exception raised by the iterable

---
 aioreactive/create.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 6b5dc03..4ad755c 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -167,14 +167,13 @@ def of_seq(xs: Iterable[TSource]) -> AsyncObservable[TSource]:
 
     async def worker(obv: AsyncObserver[TSource], token: CancellationToken) -> None:
         log.debug("of_seq:worker()")
-        for x in xs:
-            token.throw_if_cancellation_requested()
-            log.debug("of_seq:asend(%s)", x)
-
-            try:
+        try:
+            for x in xs:
+                token.throw_if_cancellation_requested()
+                log.debug("of_seq:asend(%s)", x)
                 await obv.asend(x)
-            except Exception as ex:
-                await obv.athrow(ex)
+        except Exception as ex:
+            await obv.athrow(ex)
 
         await obv.aclose()
 
-- 
2.43.0


From 28f1141e2aae62f817ec44d9a3d90e4d8abb8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:28 +0000
Subject: [PATCH 16/46] fix: of_async_iterable loses an exception raised by the
 async iterable

---
 aioreactive/create.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 4ad755c..33dc01b 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -87,12 +87,12 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
         sub = AsyncDisposable.create(cancel)
 
         async def worker() -> None:
-            async for value in iterable:
-                try:
+            try:
+                async for value in iterable:
                     await observer.asend(value)
-                except Exception as ex:
-                    await observer.athrow(ex)
-                    return
+            except Exception as ex:
+                await observer.athrow(ex)
+                return
 
             await observer.aclose()
             tasks.remove(task)
-- 
2.43.0


From 7e97ad9676685c2d3affd6951a67f247acdc88a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:57 +0000
Subject: [PATCH 17/46] fix: a disposed single subject blocks or busy-loops its
 producers

---
 aioreactive/subject.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index d3d7eb1..0218571 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -44,6 +44,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
             log.debug("AsyncSingleStream:asend:awaiting start")
             await self._wait
             log.debug("AsyncSingleStream:asend:awaiting:done")
+            self.check_disposed()
 
         if not self._is_stopped:
             await self._observer.asend(value)
@@ -51,10 +52,11 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncSingleStream:athrow()")
 
+        self.check_disposed()
         while self._observer is None:
             await self._wait
+            self.check_disposed()
 
-        self.check_disposed()
         if not self._is_stopped:
             await self._observer.athrow(error)
             self._is_stopped = True
@@ -62,11 +64,12 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
 
+        self.check_disposed()
         while self._observer is None:
             log.debug("AsyncSingleStream:aclose:awaiting start")
             await self._wait
+            self.check_disposed()
 
-        self.check_disposed()
         if not self._is_stopped:
             log.debug("AsyncSingleStream:subscription disposed")
             await self._observer.aclose()
@@ -78,6 +81,10 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self._observer = None
         self._is_disposed = True
 
+        # Wake up anyone still waiting for an observer
+        if not self._wait.done():
+            self._wait.set_result(True)
+
     async def subscribe_async(
         self,
         send: SendAsync[_TSource] | AsyncObserver[_TSource] | None = None,
-- 
2.43.0


From fd3a52a48bc91836890f726f425d61de4a2dfa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:01 +0000
Subject: [PATCH 18/46] fix: a single subject delivers more while its terminal
 is being handled

---
 aioreactive/subject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 0218571..4cc028b 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -58,8 +58,8 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
             self.check_disposed()
 
         if not self._is_stopped:
-            await self._observer.athrow(error)
             self._is_stopped = True
+            await self._observer.athrow(error)
 
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
@@ -72,8 +72,8 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
 
         if not self._is_stopped:
             log.debug("AsyncSingleStream:subscription disposed")
-            await self._observer.aclose()
             self._is_stopped = True
+            await self._observer.aclose()
 
     async def dispose_async(self) -> None:
         log.debug("AsyncSingleStream:dispose_async()")
-- 
2.43.0


From f8ef8d7c6615f46b5ee0cc3d8baed6532d8db450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:04 +0000
Subject: [PATCH 19/46] fix: cancelling one producer waiting on a single
 subject cancels all of them

---
 aioreactive/subject.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 4cc028b..e04261b 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future
+from asyncio import Future, shield
 from typing import TypeVar
 
 from expression.system import AsyncDisposable, ObjectDisposedException
@@ -42,7 +42,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         # AsyncSingleStreams are cold and will await a sink.
         while self._observer is None:
             log.debug("AsyncSingleStream:asend:awaiting start")
-            await self._wait
+            await shield(self._wait)
             log.debug("AsyncSingleStream:asend:awaiting:done")
             self.check_disposed()
 
@@ -54,7 +54,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
 
         self.check_disposed()
         while self._observer is None:
-            await self._wait
+            await shield(self._wait)
             self.check_disposed()
 
         if not self._is_stopped:
@@ -67,7 +67,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self.check_disposed()
         while self._observer is None:
             log.debug("AsyncSingleStream:aclose:awaiting start")
-            await self._wait
+            await shield(self._wait)
             self.check_disposed()
 
         if not self._is_stopped:
-- 
2.43.0


From 2368c780d324c50d6d13e73b87826228a96e74ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:08 +0000
Subject: [PATCH 20/46] fix: async iteration blocks the producer at the end and
 breaks when the consumer gives up

---
 aioreactive/observers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 16b42b8..0a67068 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, iscoroutinefunction
+from asyncio import Future, iscoroutinefunction, wait
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -39,7 +39,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         await self._wait_for_pull()
 
     async def athrow(self, error: Exception) -> None:
-        log.debug("AsyncIteratorObserver:athrow()", error)
+        log.debug("AsyncIteratorObserver:athrow(%s)", error)
         await self._serialize_access()
 
         self._push.set_exception(error)
@@ -70,14 +70,17 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         if self._subscription is None:
             self._subscription = await self._source.subscribe_async(self)
 
-        value = await self._push
+        # Do not await the value directly. A consumer that gives up waiting
+        # must not cancel the hand-over.
+        push = self._push
+        await wait([push])
         self._push = Future()
         self._pull.set_result(True)
 
         # Wake up any awaiters
         for awaiter in self._awaiters[:1]:
             awaiter.set_result(True)
-        return value
+        return push.result()
 
     async def dispose_async(self) -> None:
         if self._subscription is not None:
-- 
2.43.0


From b6e86a4cc23ed593195fae63427c83deffe8b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:11 +0000
Subject: [PATCH 21/46] fix: AsyncAwaitableObserver fails when it was cancelled
 before the stream ended

---
 aioreactive/observers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 0a67068..7d1268f 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -290,7 +290,8 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        self.set_exception(error)
+        if not self.done():
+            self.set_exception(error)
         await self._athrow(error)
 
     async def aclose(self) -> None:
@@ -302,7 +303,7 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        if self._has_value:
+        if self._has_value and not self.done():
             self.set_result(self._last_value)
         else:
             self.cancel()
-- 
2.43.0


From 728cc4f80f91c0cc7c75af29342e376624b57c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:38 +0000
Subject: [PATCH 22/46] fix: to_observable raises in the event loop and ignores
 an early dispose

---
 aioreactive/leave.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aioreactive/leave.py b/aioreactive/leave.py
index 58ca389..23812d8 100644
--- a/aioreactive/leave.py
+++ b/aioreactive/leave.py
@@ -35,6 +35,7 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
 
     def subscribe(obv: ObserverBase[_TSource], scheduler: SchedulerBase | None = None) -> DisposableBase:
         subscription: AsyncDisposable | None = None
+        is_disposed = False
 
         async def start() -> None:
             nonlocal subscription
@@ -49,16 +50,21 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
                 obv.on_completed()
 
             subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
-            tasks.remove(task)
+            if is_disposed:
+                await subscription.dispose_async()
 
         task = asyncio.create_task(start())
         tasks.add(task)
-        task.add_done_callback(lambda _: tasks.remove(task))
+        task.add_done_callback(tasks.discard)
 
         def dispose() -> None:
+            nonlocal is_disposed
+
+            is_disposed = True
             if subscription:
                 task = asyncio.create_task(subscription.dispose_async())
                 tasks.add(task)
+                task.add_done_callback(tasks.discard)
 
         return Disposable(dispose)
 
-- 
2.43.0


From 1e648b595127d9eab331af28917f0c34447a8ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:41 +0000
Subject: [PATCH 23/46] fix: take(0) waits for the source to end

---
 aioreactive/filtering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index c056b4e..0eb4dcd 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -236,6 +236,10 @@ def take(
 
     def _take(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
         async def subscribe_async(obvAsync: AsyncObserver[_TSource]) -> AsyncDisposable:
+            if not count:
+                await obvAsync.aclose()
+                return AsyncDisposable.empty()
+
             safe_obv, auto_detach = auto_detach_observer(obvAsync)
 
             remaining = count
-- 
2.43.0


From b371b730772f8c0ba922d3b331c209518357bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:44 +0000
Subject: [PATCH 24/46] fix: slice selects the wrong elements for several
 combinations of bounds

---
 aioreactive/__init__.py  |  2 +-
 aioreactive/filtering.py | 22 ++++++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/aioreactive/__init__.py b/aioreactive/__init__.py
index a91330f..ec10b7c 100644
--- a/aioreactive/__init__.py
+++ b/aioreactive/__init__.py
@@ -117,7 +117,7 @@ class AsyncRx(AsyncObservable[_TSource]):
         if isinstance(key, slice):
             start, stop, step = key.start, key.stop, key.step
         else:
-            start, stop, step = key, key + 1, 1
+            start, stop, step = key, (key + 1) or None, 1
 
         return AsyncRx(pipe(self, _slice(start, stop, step or 1)))
 
diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 0eb4dcd..3c8ae44 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -365,18 +365,28 @@ def slice(
     """
 
     def _slice(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        nonlocal start
-
-        if start is not None:
+        if start is not None and start < 0 and stop is not None and stop >= 0:
+            # The stop is relative to the start of the stream
+            def before_stop(_: Any, i: int) -> bool:
+                return i < stop
+
+            source = pipe(
+                source,
+                zip_seq(seq.infinite),
+                take_last(abs(start)),
+                starfilter(before_stop),
+                map(seq.head),
+            )
+        elif start is not None:
             if start < 0:
                 source = pipe(source, take_last(abs(start)))
             else:
                 source = pipe(source, skip(start))
 
         if stop is not None:
-            if stop > 0:
-                start = start or 0
-                source = pipe(source, take(stop - start))
+            if stop >= 0:
+                if start is None or start >= 0:
+                    source = pipe(source, take(max(stop - (start or 0), 0)))
             else:
                 source = pipe(source, skip_last(abs(stop)))
 
-- 
2.43.0


From 22a502f00128caebdab39dc08694563ac921d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:47 +0000
Subject: [PATCH 25/46] fix: distinct_until_changed loses an exception raised
 by the comparison

---
 aioreactive/filtering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 3c8ae44..39d4a5d 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -141,11 +141,11 @@ def distinct_until_changed(
                 async def get_latest() -> Notification[_TSource]:
                     match n:
                         case OnNext(value=x):
-                            if n != latest:
-                                try:
+                            try:
+                                if n != latest:
                                     await safe_obv.asend(x)
-                                except Exception as ex:
-                                    await safe_obv.athrow(ex)
+                            except Exception as ex:
+                                await safe_obv.athrow(ex)
                         case OnError(exception=err):
                             await safe_obv.athrow(err)
 
-- 
2.43.0


From 68c0ace12c4123379cbbe8ca03794e9515c858ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:24 +0000
Subject: [PATCH 26/46] fix: catch sends an error after the terminal when the
 observer's terminal handler raises

---
 aioreactive/transform.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 981b4b3..6ae6131 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -424,9 +424,24 @@ def catch(
                 if is_disposed:
                     return
 
+                is_stopped = False
+
+                async def athrow(error: Exception) -> None:
+                    nonlocal is_stopped
+                    is_stopped = True
+                    await aobv.athrow(error)
+
+                async def aclose() -> None:
+                    nonlocal is_stopped
+                    is_stopped = True
+                    await aobv.aclose()
+
                 try:
-                    subscription = await handler(error).subscribe_async(aobv)
+                    obv = AsyncAnonymousObserver(aobv.asend, athrow, aclose)
+                    subscription = await handler(error).subscribe_async(obv)
                 except Exception as ex:
+                    if is_stopped:
+                        raise
                     await aobv.athrow(ex)
                     return
 
-- 
2.43.0


From d956974a79839311df5b3b25602e8035b13198c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:03 +0000
Subject: [PATCH 27/46] fix: async iteration hangs on sources that send while
 being subscribed to

---
 aioreactive/observers.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 7d1268f..b9b2448 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, iscoroutinefunction, wait
+from asyncio import FIRST_COMPLETED, Future, ensure_future, iscoroutinefunction, wait
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -26,7 +26,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._pull: Future[bool] = Future()
 
         self._awaiters: list[Future[bool]] = []
-        self._subscription: AsyncDisposable | None = None
+        self._subscription: Future[AsyncDisposable] | None = None
         self._source = source
         self._busy = False
 
@@ -68,12 +68,17 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
 
     async def wait_for_push(self) -> _TSource:
         if self._subscription is None:
-            self._subscription = await self._source.subscribe_async(self)
+            # Sources may send while being subscribed to. Those values must be
+            # picked up before the subscription is ready.
+            self._subscription = ensure_future(self._source.subscribe_async(self))
 
         # Do not await the value directly. A consumer that gives up waiting
         # must not cancel the hand-over.
         push = self._push
-        await wait([push])
+        await wait([push, self._subscription], return_when=FIRST_COMPLETED)
+        if not push.done():
+            self._subscription.result()
+            await wait([push])
         self._push = Future()
         self._pull.set_result(True)
 
@@ -83,9 +88,14 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         return push.result()
 
     async def dispose_async(self) -> None:
-        if self._subscription is not None:
-            await self._subscription.dispose_async()
-        self._subscription = None
+        subscription, self._subscription = self._subscription, None
+        if subscription is None:
+            return
+
+        if not subscription.done():
+            subscription.cancel()
+        elif subscription.exception() is None:
+            await subscription.result().dispose_async()
 
     def __aiter__(self) -> AsyncIterator[_TSource]:
         log.debug("AsyncIteratorObserver:__aiter__")
-- 
2.43.0


From acf67ca019a05db27ea7a314eeffca628d027f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:55 +0000
Subject: [PATCH 28/46] fix: disposing an async iterable from its own handler
 cancels that handler

---
 aioreactive/create.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 33dc01b..bcd89ea 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -80,8 +80,14 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
     tasks: set[Task[Any]] = set()
 
     async def subscribe_async(observer: AsyncObserver[TSource]) -> AsyncDisposable:
+        is_disposed = False
+
         async def cancel() -> None:
-            if task:
+            nonlocal is_disposed
+
+            is_disposed = True
+            # Do not cancel a handler that disposes its own subscription.
+            if task and task is not asyncio.current_task():
                 task.cancel()
 
         sub = AsyncDisposable.create(cancel)
@@ -90,6 +96,8 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
             try:
                 async for value in iterable:
                     await observer.asend(value)
+                    if is_disposed:
+                        return
             except Exception as ex:
                 await observer.athrow(ex)
                 return
-- 
2.43.0


From 300a35bbbd26b8628b1791b4b2bb021de2c00732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:55 +0000
Subject: [PATCH 29/46] fix: disposing interval from its own handler cancels
 that handler

---
 aioreactive/create.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index bcd89ea..975a94d 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -213,9 +213,10 @@ def interval(seconds: float, period: float) -> AsyncObservable[int]:
     sequence starting with 0 after the given msecs, and the after each
     period.
     """
+    tasks: set[Task[Any]] = set()
 
     async def subscribe_async(aobv: AsyncObserver[int]) -> AsyncDisposable:
-        cancel, token = canceller()
+        is_disposed = False
 
         @tailrec_async
         async def handler(seconds: float, next: int) -> "TailCallResult[None, [float, int]]":
@@ -226,14 +227,28 @@ def interval(seconds: float, period: float) -> AsyncObservable[int]:
                 await aobv.athrow(ex)
                 return None
 
+            if is_disposed:
+                return None
+
             if not period:
                 await aobv.aclose()
                 return None
 
             return TailCall[float, int](period, next + 1)
 
-        aiotools.start(handler(seconds, 0), token)
-        return cancel
+        task = asyncio.create_task(handler(seconds, 0))
+        tasks.add(task)
+        task.add_done_callback(tasks.discard)
+
+        async def cancel() -> None:
+            nonlocal is_disposed
+
+            is_disposed = True
+            # Do not cancel a handler that disposes its own subscription.
+            if task is not asyncio.current_task():
+                task.cancel()
+
+        return AsyncDisposable.create(cancel)
 
     return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From dfe67f0daa0f6cef81c7f075c58f23c69e44bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:55 +0000
Subject: [PATCH 30/46] fix: disposing delay from its own handler cancels that
 handler

---
 aioreactive/timeshift.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 113c060..0f94727 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -85,10 +85,13 @@ def delay(
                 await matcher()
                 return TailCall["..."]()
 
-            return asyncio.ensure_future(loop())
+            nonlocal task
+            task = asyncio.ensure_future(loop())
+            return task
 
+        task: asyncio.Future[None] | None = None
         subscription = AsyncDisposable.empty()
-        agent = MailboxProcessor.start(worker, token)
+        agent = MailboxProcessor.start(worker)
 
         async def fn(ns: Notification[_TSource]) -> None:
             due_time = datetime.now(timezone.utc) + timedelta(seconds=seconds)
@@ -102,6 +105,9 @@ def delay(
         async def cancel() -> None:
             log.debug("delay:cancel()")
             cts.cancel()
+            # Do not cancel a handler that disposes its own subscription.
+            if task and task is not asyncio.current_task():
+                task.cancel()
             await subscription.dispose_async()
 
         return AsyncDisposable.create(cancel)
-- 
2.43.0


From ab7c086a5bb4a695aa9807de3125d1a96987f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:52 +0000
Subject: [PATCH 31/46] fix: catch delivers what the handler sends while being
 subscribed to after dispose

---
 aioreactive/transform.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 6ae6131..349a6e1 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -414,7 +414,8 @@ def catch(
             is_disposed = False
 
             async def asend(value: _TSource) -> None:
-                await aobv.asend(value)
+                if not is_disposed:
+                    await aobv.asend(value)
 
             async def athrow(error: Exception) -> None:
                 nonlocal disposable, is_caught
@@ -429,15 +430,17 @@ def catch(
                 async def athrow(error: Exception) -> None:
                     nonlocal is_stopped
                     is_stopped = True
-                    await aobv.athrow(error)
+                    if not is_disposed:
+                        await aobv.athrow(error)
 
                 async def aclose() -> None:
                     nonlocal is_stopped
                     is_stopped = True
-                    await aobv.aclose()
+                    if not is_disposed:
+                        await aobv.aclose()
 
                 try:
-                    obv = AsyncAnonymousObserver(aobv.asend, athrow, aclose)
+                    obv = AsyncAnonymousObserver(asend, athrow, aclose)
                     subscription = await handler(error).subscribe_async(obv)
                 except Exception as ex:
                     if is_stopped:
-- 
2.43.0


From 84a84ce7c2d10ecfb5ed297ce83fa235a621e7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:21 +0000
Subject: [PATCH 32/46] fix: a subscription that fails leaves what it has
 subscribed to so far

---
 aioreactive/combine.py   | 6 +++++-
 aioreactive/observers.py | 8 +++++++-
 aioreactive/transform.py | 6 +++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index b6806df..f051239 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -153,7 +153,11 @@ def merge_inner(
             obv = AsyncAnonymousObserver(asend, athrow, aclose)
 
             async def subscribe() -> AsyncDisposable:
-                dispose = await source.subscribe_async(obv)
+                try:
+                    dispose = await source.subscribe_async(obv)
+                except Exception:
+                    agent.post(Msg(dispose=True))
+                    raise
 
                 async def cancel() -> None:
                     await dispose.dispose_async()
diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index b9b2448..ef6a15b 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -242,7 +242,13 @@ def auto_detach_observer(
 
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
-        disposable = await async_disposable
+        try:
+            disposable = await async_disposable
+        except Exception:
+            # The subscription failed. Do not leave what has been subscribed so far.
+            await canceller.dispose_async()
+            raise
+
         if token.is_cancellation_requested:
             await disposable.dispose_async()
         else:
diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 349a6e1..77e7f0b 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -341,7 +341,11 @@ def switch_latest(
         _obv = AsyncAnonymousObserver(asend, athrow, aclose)
 
         async def subscribe() -> AsyncDisposable:
-            dispose = await source.subscribe_async(_obv)
+            try:
+                dispose = await source.subscribe_async(_obv)
+            except Exception:
+                inner_agent.post(Msg(dispose=True))
+                raise
 
             async def cancel() -> None:
                 await dispose.dispose_async()
-- 
2.43.0


From 13305caf5a586386fdd422101527563bfe9b2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:33 +0000
Subject: [PATCH 33/46] fix: unsubscribing from a subject must not remove an
 equal observer

---
 aioreactive/subject.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index e04261b..c8c24ba 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -164,8 +164,11 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
 
         async def dispose() -> None:
             log.debug("AsyncMultiStream:dispose()")
-            if observer in self._observers:
-                self._observers.remove(observer)
+            # Look for the observer itself. Others may compare equal to it.
+            for i, obv in enumerate(self._observers):
+                if obv is observer:
+                    del self._observers[i]
+                    break
 
         return AsyncDisposable.create(dispose)
 
-- 
2.43.0


From c2e008c4f4bac188ca8f6deb1c698812f12a42e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 34/46] fix: a producer that gives up sending must not break
 the async iterator

---
 aioreactive/observers.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index ef6a15b..42a0a6a 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import FIRST_COMPLETED, Future, ensure_future, iscoroutinefunction, wait
+from asyncio import FIRST_COMPLETED, CancelledError, Future, ensure_future, iscoroutinefunction, shield, wait
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -52,20 +52,34 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         await self._wait_for_pull()
 
     async def _wait_for_pull(self) -> None:
-        await self._pull
-        self._pull = Future()
-        self._busy = False
+        # A producer that gives up waiting must not cancel the hand-over.
+        await shield(self._pull)
 
     async def _serialize_access(self) -> None:
         # Serialize producer event to the iterator
-        while self._busy:
+        if self._busy:
             fut: Future[bool] = Future()
             self._awaiters.append(fut)
-            await fut
-            self._awaiters.remove(fut)
+            try:
+                await fut
+            except CancelledError:
+                # Gave up after being woken up. Someone else needs to be.
+                if not fut.cancelled():
+                    self._release_access()
+                raise
 
         self._busy = True
 
+    def _release_access(self) -> None:
+        # Pass on to the next producer that is still waiting
+        while self._awaiters:
+            awaiter = self._awaiters.pop(0)
+            if not awaiter.done():
+                awaiter.set_result(True)
+                return
+
+        self._busy = False
+
     async def wait_for_push(self) -> _TSource:
         if self._subscription is None:
             # Sources may send while being subscribed to. Those values must be
@@ -80,11 +94,10 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
             self._subscription.result()
             await wait([push])
         self._push = Future()
-        self._pull.set_result(True)
+        pull, self._pull = self._pull, Future()
+        pull.set_result(True)
 
-        # Wake up any awaiters
-        for awaiter in self._awaiters[:1]:
-            awaiter.set_result(True)
+        self._release_access()
         return push.result()
 
     async def dispose_async(self) -> None:
-- 
2.43.0


From 7aff710bd6935bcd7eb4a2429ce861f5c0f434ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:59 +0000
Subject: [PATCH 35/46] fix: catch leaves its handler subscribed when
 subscribing to the source fails

---
 aioreactive/transform.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 77e7f0b..50bbcaf 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -461,7 +461,14 @@ def catch(
 
             _obv = AsyncAnonymousObserver(asend, athrow, aclose)
 
-            subscription = await source.subscribe_async(_obv)
+            try:
+                subscription = await source.subscribe_async(_obv)
+            except BaseException:
+                # The handler may have been subscribed already.
+                is_disposed = True
+                await disposable.dispose_async()
+                raise
+
             if is_caught:
                 await subscription.dispose_async()
             else:
-- 
2.43.0


From 4645bdddcc68399c10984eb9a53463c8ea06cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:02 +0000
Subject: [PATCH 36/46] fix: a subscription that is cancelled leaves what it
 has subscribed so far

---
 aioreactive/combine.py   | 2 +-
 aioreactive/observers.py | 4 ++--
 aioreactive/transform.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index f051239..f477a10 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -155,7 +155,7 @@ def merge_inner(
             async def subscribe() -> AsyncDisposable:
                 try:
                     dispose = await source.subscribe_async(obv)
-                except Exception:
+                except BaseException:
                     agent.post(Msg(dispose=True))
                     raise
 
diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 42a0a6a..d0fc111 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -257,8 +257,8 @@ def auto_detach_observer(
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
         try:
             disposable = await async_disposable
-        except Exception:
-            # The subscription failed. Do not leave what has been subscribed so far.
+        except BaseException:
+            # The subscription failed or was cancelled. Do not leave what has been subscribed so far.
             await canceller.dispose_async()
             raise
 
diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 50bbcaf..0ace3a9 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -343,7 +343,7 @@ def switch_latest(
         async def subscribe() -> AsyncDisposable:
             try:
                 dispose = await source.subscribe_async(_obv)
-            except Exception:
+            except BaseException:
                 inner_agent.post(Msg(dispose=True))
                 raise
 
-- 
2.43.0


From 21c9414ba3948faa0dc7c381803937452a456eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:55 +0000
Subject: [PATCH 37/46] fix: a value that cannot be converted to a string can
 be neither sent on a single subject nor run

---
 aioreactive/observers.py | 2 +-
 aioreactive/subject.py   | 2 +-
 aioreactive/utils.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index d0fc111..5260095 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -301,7 +301,7 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
         self._has_value = False
 
     async def asend(self, value: _TSource) -> None:
-        log.debug("AsyncAwaitableObserver:asend(%s)", str(value))
+        log.debug("AsyncAwaitableObserver:asend(%s)", value)
 
         if self._is_stopped:
             log.debug("AsyncAwaitableObserver:asend(), Closed!!")
diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index c8c24ba..bdf5b60 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -35,7 +35,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
             raise ObjectDisposedException()
 
     async def asend(self, value: _TSource) -> None:
-        log.debug("AsyncSingleStream:asend(%s)", str(value))
+        log.debug("AsyncSingleStream:asend(%s)", value)
 
         self.check_disposed()
 
diff --git a/aioreactive/utils.py b/aioreactive/utils.py
index d49fd67..ec285a4 100644
--- a/aioreactive/utils.py
+++ b/aioreactive/utils.py
@@ -19,7 +19,7 @@ async def anoop(value: Any | None = None) -> None:
 
 class NoopObserver(AsyncObserver[_TSource]):
     async def asend(self, value: _TSource) -> None:
-        log.debug("NoopSink:asend(%s)", str(value))
+        log.debug("NoopSink:asend(%s)", value)
 
     async def athrow(self, error: Exception) -> None:
         log.debug("NoopSink:athrow(%s)", error)
-- 
2.43.0


From f9607ddff43401255ef9cf5e8a4a5edb6bcd050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:11 +0000
Subject: [PATCH 38/46] fix: a disposed subscription leaves a task waiting
 forever

---
 aioreactive/observers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 5260095..140414c 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -222,6 +222,9 @@ def safe_observer(
         await message_loop(running=True)
 
     agent = MailboxProcessor.start(worker)
+    if token is not None:
+        # Wake up the worker when the subscription is disposed. It would wait forever otherwise.
+        token.register(lambda: agent.post(OnCompleted()))
 
     async def asend(value: _TSource) -> None:
         agent.post(OnNext(value))
-- 
2.43.0


From d7d76c78d02298d02b559ea71a7590961d1148f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 39/46] fix: operators leave a task waiting forever when a
 subscription has ended

---
 aioreactive/combine.py   | 13 ++++++++++---
 aioreactive/filtering.py |  8 ++++++--
 aioreactive/observers.py | 13 +++++++++++++
 aioreactive/timeshift.py | 17 +++++++----------
 4 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index f477a10..fa473d1 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -2,7 +2,7 @@ import dataclasses
 import logging
 from collections.abc import Callable, Iterable
 from dataclasses import dataclass
-from typing import Any, Generic, NoReturn, TypeVar
+from typing import Any, Generic, TypeVar
 
 from expression import curry_flip
 from expression.collections import Block, Map, block, map
@@ -26,6 +26,7 @@ from .observers import (
     AsyncAnonymousObserver,
     AsyncNotificationObserver,
     auto_detach_observer,
+    stop_agent,
 )
 from .types import AsyncObservable, AsyncObserver
 
@@ -212,7 +213,7 @@ def combine_latest(
             @tailrec_async
             async def message_loop(
                 source_value: Option[_TSource], other_value: Option[_TOther]
-            ) -> "TailCallResult[NoReturn, [Option[_TSource], Option[_TOther]]]":
+            ) -> "TailCallResult[None, [Option[_TSource], Option[_TOther]]]":
                 cn = await inbox.receive()
 
                 async def get_value(n: Notification[Any]) -> Option[Any]:
@@ -231,6 +232,8 @@ def combine_latest(
 
                     case Msg(tag="other", other=value):
                         other_value = await get_value(value)
+                    case Msg(tag="dispose"):
+                        return None
                     case _:
                         raise ValueError(f"Unexpected message: {cn}")
 
@@ -249,6 +252,7 @@ def combine_latest(
             await message_loop(Nothing, Nothing)
 
         agent = MailboxProcessor.start(worker)
+        await auto_detach(stop_agent(agent, Msg(dispose=True)))
 
         async def obv_fn1(n: Notification[_TSource]) -> None:
             pipe(Msg(source=n), agent.post)
@@ -293,7 +297,7 @@ def with_latest_from(
             @tailrec_async
             async def message_loop(
                 latest: Option[_TOther],
-            ) -> "TailCallResult[NoReturn, [Option[_TOther]]]":
+            ) -> "TailCallResult[None, [Option[_TOther]]]":
                 cn = await inbox.receive()
 
                 async def get_value(n: Notification[Any]) -> Option[Any]:
@@ -314,6 +318,8 @@ def with_latest_from(
                         source_value = await get_value(value)
                     case Msg(tag="other", other=value):
                         latest = await get_value(value)
+                    case Msg(tag="dispose"):
+                        return None
                     case _:
                         raise ValueError(f"Unexpected message: {cn}")
 
@@ -332,6 +338,7 @@ def with_latest_from(
             await message_loop(Nothing)
 
         agent = MailboxProcessor.start(worker)
+        await auto_detach(stop_agent(agent, Msg(dispose=True)))
 
         async def obv_fn1(n: Notification[_TSource]) -> None:
             pipe(Msg(source=n), agent.post)
diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 39d4a5d..6af9dd6 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -1,5 +1,5 @@
 from collections.abc import Awaitable, Callable, Iterable
-from typing import Any, NoReturn, TypeVar
+from typing import Any, TypeVar
 
 from expression.collections import seq
 from expression.core import (
@@ -21,6 +21,7 @@ from .observers import (
     AsyncAnonymousObserver,
     AsyncNotificationObserver,
     auto_detach_observer,
+    stop_agent,
 )
 from .transform import map, transform
 from .types import AsyncObservable, AsyncObserver
@@ -135,7 +136,7 @@ def distinct_until_changed(
             @tailrec_async
             async def message_loop(
                 latest: Notification[_TSource],
-            ) -> TailCallResult[NoReturn, [Notification[_TSource]]]:
+            ) -> TailCallResult[None, [Notification[_TSource]]]:
                 n = await inbox.receive()
 
                 async def get_latest() -> Notification[_TSource]:
@@ -155,11 +156,14 @@ def distinct_until_changed(
                     return n
 
                 latest = await get_latest()
+                if not isinstance(latest, OnNext):
+                    return None
                 return TailCall[Notification[_TSource]](latest)
 
             await message_loop(OnCompleted())
 
         agent = MailboxProcessor.start(worker)
+        await auto_detach(stop_agent(agent, OnCompleted()))
 
         async def notification(n: Notification[_TSource]) -> None:
             agent.post(n)
diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 140414c..b018218 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -274,6 +274,19 @@ def auto_detach_observer(
     return safe_obv, auto_detach
 
 
+async def stop_agent(agent: MailboxProcessor[_TSource], msg: _TSource) -> AsyncDisposable:
+    """Stop agent.
+
+    To be auto-detached, i.e returns a disposable that stops the agent
+    by posting the given (last) message.
+    """
+
+    async def stop() -> None:
+        agent.post(msg)
+
+    return AsyncDisposable.create(stop)
+
+
 class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposable):
     """An async awaitable observer.
 
diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 0f94727..3565eb1 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -2,7 +2,7 @@ import asyncio
 import logging
 from collections.abc import Awaitable, Callable, Iterable
 from datetime import datetime, timedelta, timezone
-from typing import NoReturn, TypeVar
+from typing import TypeVar
 
 from expression import curry_flipped
 from expression.collections import seq
@@ -21,7 +21,7 @@ from .combine import with_latest_from
 from .create import interval
 from .notification import Notification, OnCompleted, OnError, OnNext
 from .observables import AsyncAnonymousObservable
-from .observers import AsyncNotificationObserver, auto_detach_observer
+from .observers import AsyncNotificationObserver, auto_detach_observer, stop_agent
 from .transform import map
 from .types import AsyncDisposable, AsyncObservable, AsyncObserver
 
@@ -127,7 +127,7 @@ def debounce(
                 @tailrec_async
                 async def message_loop(
                     current_index: int,
-                ) -> "TailCallResult[NoReturn, [int]]":
+                ) -> "TailCallResult[None, [int]]":
                     n, index = await inbox.receive()
 
                     match n:
@@ -141,15 +141,18 @@ def debounce(
 
                         case OnError(exception=err):
                             await safe_obv.athrow(err)
+                            return None
 
                         case _:
                             await safe_obv.aclose()
+                            return None
 
                     return TailCall[int](current_index)
 
                 await message_loop(-1)
 
             agent = MailboxProcessor.start(worker)
+            await auto_detach(stop_agent(agent, (OnCompleted(), 0)))
 
             indexer = iter(infinite)
 
@@ -165,13 +168,7 @@ def debounce(
                 aiotools.start(worker())
 
             obv_: AsyncObserver[_TSource] = AsyncNotificationObserver(obv)
-            dispose = await pipe(obv_, source.subscribe_async, auto_detach)
-
-            async def cancel() -> None:
-                await dispose.dispose_async()
-                agent.post((OnCompleted, 0))
-
-            return AsyncDisposable.create(cancel)
+            return await pipe(obv_, source.subscribe_async, auto_detach)
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 382388e402d56acb4e24d3e6d2b5d097e12a46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:18 +0000
Subject: [PATCH 40/46] fix: delay leaves a task or its remains behind when a
 subscription has ended

---
 aioreactive/timeshift.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 3565eb1..a32d1ef 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -77,17 +77,18 @@ def delay(
                             return
                         case OnError(exception=err):
                             await aobv.athrow(err)
-                            return
+                            cts.cancel()
                         case _:
                             await aobv.aclose()
-                            return
+                            cts.cancel()
 
                 await matcher()
                 return TailCall["..."]()
 
             nonlocal task
             task = asyncio.ensure_future(loop())
-            return task
+            # Cancelling the task must not cancel the agent. It would never be released.
+            return asyncio.wait([task])
 
         task: asyncio.Future[None] | None = None
         subscription = AsyncDisposable.empty()
-- 
2.43.0


From c7fc5fdef8ab729d917c4a65b3e23845b9b3a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:29 +0000
Subject: [PATCH 41/46] fix: delay delivers after subscribing to its source has
 failed

---
 aioreactive/timeshift.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index a32d1ef..7384aeb 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -98,11 +98,6 @@ def delay(
             due_time = datetime.now(timezone.utc) + timedelta(seconds=seconds)
             agent.post((ns, due_time))
 
-        obv: AsyncNotificationObserver[_TSource] = AsyncNotificationObserver(fn)
-        subscription = await source.subscribe_async(obv)
-        if token.is_cancellation_requested:
-            await subscription.dispose_async()
-
         async def cancel() -> None:
             log.debug("delay:cancel()")
             cts.cancel()
@@ -111,6 +106,17 @@ def delay(
                 task.cancel()
             await subscription.dispose_async()
 
+        obv: AsyncNotificationObserver[_TSource] = AsyncNotificationObserver(fn)
+        try:
+            subscription = await source.subscribe_async(obv)
+        except BaseException:
+            # The subscription failed or was cancelled. Nothing must be delivered any more.
+            await cancel()
+            raise
+
+        if token.is_cancellation_requested:
+            await subscription.dispose_async()
+
         return AsyncDisposable.create(cancel)
 
     return AsyncAnonymousObservable(subscribe_async)
-- 
2.43.0


From 3be5ec256e42bcc6bd4174a7e2279345c76ada63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:52 +0000
Subject: [PATCH 42/46] fix: from_async_iterable keeps every subscription that
 is disposed early or fails

---
 aioreactive/create.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 975a94d..5577055 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -103,7 +103,6 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
                 return
 
             await observer.aclose()
-            tasks.remove(task)
 
         try:
             task = asyncio.create_task(worker())
@@ -112,6 +111,7 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
             await observer.athrow(ex)
         else:
             tasks.add(task)
+            task.add_done_callback(tasks.discard)
         return sub
 
     return AsyncAnonymousObservable(subscribe_async)
-- 
2.43.0


From a44f57529c9fc198bb01343d9e48a76f3e0eaeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:18 +0000
Subject: [PATCH 43/46] fix: a source that is disposed before it is done stays
 in memory forever

---
 aioreactive/create.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 5577055..4e55777 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -50,7 +50,10 @@ def of_async_worker(worker: Callable[[AsyncObserver[Any], CancellationToken], Aw
         disposable, token = canceller()
         safe_obv = safe_observer(aobv, disposable, token)
 
-        aiotools.start(worker(safe_obv, token), token)
+        task = asyncio.ensure_future(worker(safe_obv, token))
+        token.register(task.cancel)
+        # Only what has not been cancelled itself is released in the end
+        aiotools.start(asyncio.wait([task]))
         return disposable
 
     return AsyncAnonymousObservable(subscribe_async)
-- 
2.43.0


From 588032401e02cc7db1aac6a3c13e58575e126732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:19 +0000
Subject: [PATCH 44/46] fix: leaving an async iteration blocks those who are
 still sending

---
 aioreactive/observers.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index b018218..a6e72b6 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -29,24 +29,28 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._subscription: Future[AsyncDisposable] | None = None
         self._source = source
         self._busy = False
+        self._is_disposed = False
 
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncIteratorObserver:asend(%s)", value)
 
-        await self._serialize_access()
+        if not await self._serialize_access():
+            return
 
         self._push.set_result(value)
         await self._wait_for_pull()
 
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncIteratorObserver:athrow(%s)", error)
-        await self._serialize_access()
+        if not await self._serialize_access():
+            return
 
         self._push.set_exception(error)
         await self._wait_for_pull()
 
     async def aclose(self) -> None:
-        await self._serialize_access()
+        if not await self._serialize_access():
+            return
 
         self._push.set_exception(StopAsyncIteration)
         await self._wait_for_pull()
@@ -55,7 +59,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         # A producer that gives up waiting must not cancel the hand-over.
         await shield(self._pull)
 
-    async def _serialize_access(self) -> None:
+    async def _serialize_access(self) -> bool:
         # Serialize producer event to the iterator
         if self._busy:
             fut: Future[bool] = Future()
@@ -68,7 +72,12 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
                     self._release_access()
                 raise
 
+        # Once disposed there is no one left to pick up anything
+        if self._is_disposed:
+            return False
+
         self._busy = True
+        return True
 
     def _release_access(self) -> None:
         # Pass on to the next producer that is still waiting
@@ -84,6 +93,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         if self._subscription is None:
             # Sources may send while being subscribed to. Those values must be
             # picked up before the subscription is ready.
+            self._is_disposed = False
             self._subscription = ensure_future(self._source.subscribe_async(self))
 
         # Do not await the value directly. A consumer that gives up waiting
@@ -105,11 +115,26 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         if subscription is None:
             return
 
+        self._let_go()
         if not subscription.done():
             subscription.cancel()
         elif subscription.exception() is None:
             await subscription.result().dispose_async()
 
+    def _let_go(self) -> None:
+        # Do not block those who are still sending
+        self._is_disposed = True
+        if self._push.done():
+            self._push.exception()
+        if not self._pull.done():
+            self._pull.set_result(True)
+        for awaiter in self._awaiters:
+            if not awaiter.done():
+                awaiter.set_result(True)
+
+        self._push, self._pull = Future(), Future()
+        self._awaiters, self._busy = [], False
+
     def __aiter__(self) -> AsyncIterator[_TSource]:
         log.debug("AsyncIteratorObserver:__aiter__")
         return self
-- 
2.43.0


From 7a71084a20074917d640fe3860f93b84ac3a7517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:24 +0000
Subject: [PATCH 45/46] fix: the reactivex bridge loses the error of a source
 that cannot be subscribed to

---
 aioreactive/leave.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aioreactive/leave.py b/aioreactive/leave.py
index 23812d8..c03d16e 100644
--- a/aioreactive/leave.py
+++ b/aioreactive/leave.py
@@ -49,7 +49,12 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
             async def aclose() -> None:
                 obv.on_completed()
 
-            subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
+            try:
+                subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
+            except Exception as ex:
+                obv.on_error(ex)
+                return
+
             if is_disposed:
                 await subscription.dispose_async()
 
-- 
2.43.0


From e99f8ab010add0489131f447d088590e7f05b00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 46/46] fix: AsyncIteratorObserver forgets producers that gave
 up waiting

---
 aioreactive/observers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index a6e72b6..ebf2eb2 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -67,9 +67,11 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
             try:
                 await fut
             except CancelledError:
-                # Gave up after being woken up. Someone else needs to be.
                 if not fut.cancelled():
+                    # Gave up after being woken up. Someone else needs to be.
                     self._release_access()
+                elif fut in self._awaiters:
+                    self._awaiters.remove(fut)
                 raise
 
         # Once disposed there is no one left to pick up anything
-- 
2.43.0

