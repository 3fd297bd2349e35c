From 44b40261aa96dc57058e9cc50e8c131c1aeb81b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 01/23] fix: keep batch members from outliving a failed or
 cancelled batch call

When an extensible method without a batch implementation was called in
batch and one member failed, or the call was cancelled, the remaining
members went on running after the caller released the actor lock, so they
could run at the same time as the next call.
---
 python/xoscar/batch.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/xoscar/batch.py b/python/xoscar/batch.py
index 82f8c25..b38c7de 100644
--- a/python/xoscar/batch.py
+++ b/python/xoscar/batch.py
@@ -161,6 +161,14 @@ class _ExtensibleWrapper(_ExtensibleCallable):
             except asyncio.CancelledError:
                 _ = [task.cancel() for task in tasks]
                 return await asyncio.gather(*tasks)
+            finally:
+                # gather raises as soon as one member fails, never leave
+                # the others running when the caller releases its lock
+                while not all(task.done() for task in tasks):
+                    try:
+                        await asyncio.wait(tasks)
+                    except asyncio.CancelledError:
+                        _ = [task.cancel() for task in tasks]
 
     def _sync_batch(self, args_list, kwargs_list):
         if len(args_list) == 0:
-- 
2.43.0


From baf825274b97df2c3784de91e1c045d854253e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 02/23] fix: fail only the message that cannot be rebuilt, not
 its connection

A message whose arguments could not be deserialized raised out of
on_new_channel, so the server closed the connection and every other call
on it failed with ServerClosed.
---
 python/xoscar/backends/pool.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index cb61054..0ec9f57 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -61,6 +61,7 @@ from .message import (
     ControlMessage,
     ControlMessageType,
     CreateActorMessage,
+    DeserializeMessageFailed,
     DestroyActorMessage,
     ErrorMessage,
     ForwardMessage,
@@ -426,6 +427,15 @@ class AbstractActorPool(ABC):
                 raise SendMessageFailed(error_msg) from None
             await self._send_channel(processor.result, channel, resend_failure=False)
 
+    async def _on_deserialize_failed(
+        self, error: DeserializeMessageFailed, channel: Channel
+    ):
+        with _ErrorProcessor(
+            self.external_address, error.message_id, DEFAULT_PROTOCOL
+        ) as processor:
+            raise error.__cause__ or error
+        await self._send_channel(processor.result, channel)
+
     async def process_message(self, message: _MessageBase, channel: Channel):
         handler = self._message_handler[message.message_type]
         with _ErrorProcessor(
@@ -584,6 +594,11 @@ class AbstractActorPool(ABC):
                         # close failed, ignore
                         pass
                     return
+                except DeserializeMessageFailed as e:
+                    # the message is read completely but cannot be rebuilt,
+                    # fail this message only and keep the channel
+                    asyncio.create_task(self._on_deserialize_failed(e, channel))
+                    continue
                 if await self._handle_ucx_meta_message(message, channel):
                     continue
                 asyncio.create_task(self.process_message(message, channel))
-- 
2.43.0


From 423c687847ccb43b93d54d71e3521717a27ecd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 03/23] fix: do not let connecting to one address block calls
 to the others

Router.get_client held one lock per thread while it connected, so a call
to an unreachable host kept every other call of the process, even on
established connections, waiting for the connect timeout.
---
 python/xoscar/backends/router.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/xoscar/backends/router.py b/python/xoscar/backends/router.py
index c14a074..6200432 100644
--- a/python/xoscar/backends/router.py
+++ b/python/xoscar/backends/router.py
@@ -83,13 +83,14 @@ class Router:
             cache = self._cache_local.cache = dict()
             return cache
 
-    @property
-    def _lock(self) -> asyncio.Lock:
+    def _get_lock(self, external_address: str) -> asyncio.Lock:
+        # one lock for each address, connecting to an unreachable address
+        # should not block getting clients of other addresses
         try:
-            return self._cache_local.lock
+            locks = self._cache_local.locks
         except AttributeError:
-            lock = self._cache_local.lock = asyncio.Lock()
-            return lock
+            locks = self._cache_local.locks = dict()
+        return locks.setdefault(external_address, asyncio.Lock())
 
     def set_mapping(self, mapping: dict[str, str]):
         self._mapping = mapping
@@ -136,7 +137,7 @@ class Router:
         proxy_addresses: list[str] | None = None,
         **kw,
     ) -> Client:
-        async with self._lock:
+        async with self._get_lock(external_address):
             proxy_addrs: tuple[str, ...] | None = (
                 tuple(proxy_addresses) if proxy_addresses else None
             )
@@ -214,7 +215,7 @@ class Router:
         cached: bool = True,
         **kw,
     ) -> Client:
-        async with self._lock:
+        async with self._get_lock(external_address):
             if cached and (external_address, from_who, client_type) in self._cache:
                 cached_client = self._cache[external_address, from_who, client_type]
                 if cached_client.closed:  # pragma: no cover
-- 
2.43.0


From 0a9de1cce8b4cc55d9d2f8330c0999d3df1427bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 04/23] fix: cancel remotely a call that is cancelled while its
 message is being sent

---
 python/xoscar/backends/core.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index e3ca09d..75a49a5 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -28,12 +28,15 @@ from ..errors import ServerClosed
 from ..profiling import get_profiling_data
 from .communication import ChannelType, Client, UCXClient
 from .message import (
+    DEFAULT_PROTOCOL,
+    CancelMessage,
     DeserializeMessageFailed,
     ErrorMessage,
     ForwardMessage,
     MessageType,
     ResultMessage,
     _MessageBase,
+    new_message_id,
 )
 from .router import Router
 
@@ -42,14 +45,21 @@ logger = logging.getLogger(__name__)
 
 
 class ActorCallerThreadLocal:
-    __slots__ = ("_client_to_message_futures", "_clients", "_profiling_data")
+    __slots__ = (
+        "_client_to_message_futures",
+        "_clients",
+        "_profiling_data",
+        "_cancel_tasks",
+    )
 
     _client_to_message_futures: dict[Client, dict[bytes, asyncio.Future]]
     _clients: dict[Client, asyncio.Task]
+    _cancel_tasks: set[asyncio.Task]
 
     def __init__(self):
         self._client_to_message_futures = dict()
         self._clients = dict()
+        self._cancel_tasks = set()
         self._profiling_data = get_profiling_data()
 
     def _listen_client(self, client: Client):
@@ -219,7 +229,27 @@ class ActorCallerThreadLocal:
             message = ForwardMessage(
                 message_id=message.message_id, address=dest_address, raw_message=message
             )
-        return await self.call_with_client(client, message, wait)
+        try:
+            return await self.call_with_client(client, message, wait)
+        except asyncio.CancelledError:
+            # the message may have been handed over to the transport already, which
+            # will deliver it, so make sure the remote side cancels its task as well
+            if message.message_type not in (MessageType.control, MessageType.cancel):
+                task = asyncio.create_task(
+                    self._cancel_remote(client, dest_address, message.message_id)
+                )
+                self._cancel_tasks.add(task)
+                task.add_done_callback(self._cancel_tasks.discard)
+            raise
+
+    async def _cancel_remote(self, client: Client, address: str, message_id: bytes):
+        message = CancelMessage(
+            new_message_id(), address, message_id, protocol=DEFAULT_PROTOCOL
+        )
+        try:
+            await self.call_with_client(client, message)
+        except Exception as e:  # pylint: disable=broad-except
+            logger.debug("Failed to cancel message %s: %s", message_id.hex(), e)
 
     async def stop(self):
         try:
-- 
2.43.0


From aaab994ce7c5bd3a3909c95222fd6b42a2835992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 05/23] fix: cancel the awaited call when wait_for itself is
 cancelled

---
 python/xoscar/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index a290bb4..f301502 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -206,7 +206,7 @@ async def wait_for(fut: Awaitable[Any], timeout: int | float | None = None) -> A
 
     try:
         return await asyncio.wait_for(new_fut, timeout)
-    except asyncio.TimeoutError:
+    except (asyncio.TimeoutError, asyncio.CancelledError):
         if not task.done():
             try:
                 task.cancel()  # Try to cancel without waiting
-- 
2.43.0


From 892be1b9bfc9e80accbeecee63243f31f18f2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 06/23] fix: end a remote generator only on its own end, not on
 errors that mention StopIteration

---
 python/xoscar/api.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index f301502..4a33772 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -327,6 +327,12 @@ def setup_cluster(address_to_resources: Dict[str, Dict[str, Number]]):
 T = TypeVar("T")
 
 
+class _GeneratorExhausted(Exception):
+    """
+    Raised by an actor to tell the consumer that a generator has no more values.
+    """
+
+
 class IteratorWrapper(Generic[T]):
     def __init__(self, uid: str, actor_addr: str, actor_uid: str):
         self._uid = uid
@@ -372,11 +378,8 @@ class IteratorWrapper(Generic[T]):
         try:
             assert self._actor_ref is not None
             return await self._actor_ref.__xoscar_next__(self._uid)
-        except Exception as e:
-            if "StopIteration" in str(e):
-                raise StopAsyncIteration
-            else:
-                raise
+        except _GeneratorExhausted:
+            raise StopAsyncIteration
 
 
 class AsyncActorMixin:
@@ -466,7 +469,7 @@ class AsyncActorMixin:
             if r is stop:
                 await self.__xoscar_destroy_generator__(generator_uid)
                 del gen  # Avoid exception hold generator reference.
-                raise Exception("StopIteration")
+                raise _GeneratorExhausted("StopIteration")
             else:
                 return r
         else:
-- 
2.43.0


From fb84cd4d1243ec3d43a6b45ed33a4940119713d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 07/23] fix: do not block the event loop to destroy a collected
 remote generator

---
 python/xoscar/api.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index 4a33772..d49969d 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -31,6 +31,7 @@ from typing import (
     Generic,
     List,
     Optional,
+    Set,
     Tuple,
     Type,
     TypeVar,
@@ -333,6 +334,16 @@ class _GeneratorExhausted(Exception):
     """
 
 
+# strong references to the running tasks that destroy collected generators
+_generator_destroy_tasks: Set[asyncio.Task] = set()
+
+
+def _on_generator_destroyed(task: asyncio.Task):
+    _generator_destroy_tasks.discard(task)
+    if not task.cancelled() and task.exception() is not None:
+        logger.debug("Failed to destroy a generator", exc_info=task.exception())
+
+
 class IteratorWrapper(Generic[T]):
     def __init__(self, uid: str, actor_addr: str, actor_uid: str):
         self._uid = uid
@@ -350,13 +361,20 @@ class IteratorWrapper(Generic[T]):
         return await self._actor_ref.__xoscar_destroy_generator__(self._uid)
 
     def __del__(self):
-        # It's not a good idea to spawn a new thread and join in __del__,
-        # but currently it's the only way to GC the generator.
-        # TODO(codingl2k1): This __del__ may hangs if the program is exiting.
-        if self._gc_destroy:
-            thread = threading.Thread(
-                target=asyncio.run, args=(self.destroy(),), daemon=True
-            )
+        if not self._gc_destroy:
+            return
+        coro = self.destroy()
+        try:
+            # Must not block: this may run in the very event loop that
+            # serves the connection the destroy request goes through.
+            task = asyncio.get_running_loop().create_task(coro)
+            _generator_destroy_tasks.add(task)
+            task.add_done_callback(_on_generator_destroyed)
+        except RuntimeError:
+            # It's not a good idea to spawn a new thread and join in __del__,
+            # but without a running loop it's the only way to GC the generator.
+            # TODO(codingl2k1): This __del__ may hangs if the program is exiting.
+            thread = threading.Thread(target=asyncio.run, args=(coro,), daemon=True)
             thread.start()
             thread.join()
 
-- 
2.43.0


From cb3195923623f4a818e82b4217143e0947c3bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 08/23] fix: deliver the cancellation of a call even if its
 caller is cancelled again

---
 python/xoscar/backends/context.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index 89582b1..bff9142 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -114,8 +114,12 @@ class IndigenActorContext(BaseActorContext):
         try:
             await asyncio.shield(future)
         except asyncio.CancelledError:
+            # shielded, being cancelled once more must not stop
+            # the cancellation from reaching the remote side
+            cancel_task = asyncio.create_task(self.cancel(address, message.message_id))
+            cancel_task.add_done_callback(lambda t: t.cancelled() or t.exception())
             try:
-                await self.cancel(address, message.message_id)
+                await asyncio.shield(cancel_task)
             except CannotCancelTask:
                 # cancel failed, already finished
                 raise asyncio.CancelledError
-- 
2.43.0


From 81b0a42370d2e1c328ebd49f993c79d40f2e1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 09/23] fix: allow a sync batch implementation to return None
 like an async one

---
 python/xoscar/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/batch.py b/python/xoscar/batch.py
index b38c7de..ac1236c 100644
--- a/python/xoscar/batch.py
+++ b/python/xoscar/batch.py
@@ -112,7 +112,8 @@ class _ExtensibleCallable:
             self.has_single_func = False
 
         if self.batch_func is not None:
-            return self.batch_func([args], [kwargs])[0]
+            ret = self.batch_func([args], [kwargs])
+            return None if ret is None else ret[0]
         raise NotImplementedError
 
 
-- 
2.43.0


From a4c93326eda10b8ca3276a50284768a4a8ff041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 10/23] fix: store the results of coroutines in a yielded tuple
 at their own positions

---
 python/xoscar/core.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 9ea1ee5..0eaa1e3 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -444,8 +444,7 @@ cdef class _BaseActor:
                 if extract_tuple:
                     result = list(dones)[0].result()
                 else:
-                    for pos in coro_poses:
-                        task = tasks[pos]
+                    for pos, task in zip(coro_poses, tasks):
                         values[pos] = task.result()
                     result = tuple(values)
 
-- 
2.43.0


From 33eccaf9c2bc34bf5a3a76b4a452ddd13d55598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 11/23] fix: do not keep the answer of a cancelled call alive
 through its cancel task

---
 python/xoscar/backends/context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index bff9142..1f788df 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -123,6 +123,10 @@ class IndigenActorContext(BaseActorContext):
             except CannotCancelTask:
                 # cancel failed, already finished
                 raise asyncio.CancelledError
+            finally:
+                # the error of the task refers to this frame
+                # and would keep the result alive
+                del cancel_task
         except:  # noqa: E722  # nosec  # pylint: disable=bare-except
             pass
         return await future
-- 
2.43.0


From f349187f51447fca39d4af6ac0a6e0fff9c0deb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 12/23] fix: keep the registry of a pool in step with the
 actors that exist

A failed creation left a zombie actor behind, concurrent creations shared one
placeholder (so that idle processes were booked twice), concurrent destroys ran
the hook twice, and the main pool lost or kept entries when a creation or a
destroy failed, was cancelled or overlapped with another one.
---
 python/xoscar/backends/message.pyi |   1 +
 python/xoscar/backends/message.pyx |   1 +
 python/xoscar/backends/pool.py     | 205 ++++++++++++++++++++++-------
 3 files changed, 158 insertions(+), 49 deletions(-)

diff --git a/python/xoscar/backends/message.pyi b/python/xoscar/backends/message.pyi
index 3a9c3d0..508e709 100644
--- a/python/xoscar/backends/message.pyi
+++ b/python/xoscar/backends/message.pyi
@@ -47,6 +47,7 @@ class ControlMessageType(Enum):
     add_sub_pool_actor = 5
     # indicate that the following data will be used for copy_to
     switch_to_copy_to = 6
+    remove_sub_pool_actor = 7
 
 class _MessageBase:
     message_type: MessageType
diff --git a/python/xoscar/backends/message.pyx b/python/xoscar/backends/message.pyx
index 85b610a..0a055f0 100644
--- a/python/xoscar/backends/message.pyx
+++ b/python/xoscar/backends/message.pyx
@@ -59,6 +59,7 @@ class ControlMessageType(Enum):
     add_sub_pool_actor = 5
     # the new channel created is for data transfer only
     switch_to_copy_to = 6
+    remove_sub_pool_actor = 7
 
 
 cdef class _MessageSerialItem:
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 0ec9f57..0b01208 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -147,6 +147,7 @@ class AbstractActorPool(ABC):
         "_config",
         "_stopped",
         "_actors",
+        "_destroying_actors",
         "_caller",
         "_process_messages",
         "_asyncio_task_timeout_detector_task",
@@ -186,6 +187,8 @@ class AbstractActorPool(ABC):
         # states
         # actor id -> actor
         self._actors: dict[bytes, Actor] = dict()
+        # ids of actors which are being destroyed
+        self._destroying_actors: set[bytes] = set()
         # message id -> future
         self._process_messages = dict()
 
@@ -638,7 +641,17 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             actor.uid = actor_id
             actor.address = address = self.external_address
             self._actors[actor_id] = actor
-            await self._run_coro(message.message_id, actor.__post_create__())
+            try:
+                await self._run_coro(message.message_id, actor.__post_create__())
+            except BaseException:
+                # not created, leave nothing behind
+                if self._actors.get(actor_id) is actor:
+                    del self._actors[actor_id]
+                raise
+            if self._actors.get(actor_id) is not actor:
+                raise ActorNotExist(
+                    f"Actor {actor_id!r} was destroyed while being created"
+                )
 
             proxies = self._router.get_proxies(address)
             result = ActorRef(address, actor_id, proxy_addresses=proxies)
@@ -663,11 +676,18 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             self.external_address, message.message_id, message.protocol
         ) as processor:
             actor_id = message.actor_ref.uid
+            actor = self._actors.get(actor_id)
+            if actor is None or actor_id in self._destroying_actors:
+                raise ActorNotExist(f"Actor {actor_id} does not exist")
+            # make sure that the actor is destroyed only once
+            self._destroying_actors.add(actor_id)
             try:
-                actor = self._actors[actor_id]
-            except KeyError:
+                await self._run_coro(message.message_id, actor.__pre_destroy__())
+            finally:
+                self._destroying_actors.discard(actor_id)
+            if self._actors.get(actor_id) is not actor:
+                # its creation failed meanwhile
                 raise ActorNotExist(f"Actor {actor_id} does not exist")
-            await self._run_coro(message.message_id, actor.__pre_destroy__())
             del self._actors[actor_id]
 
             processor.result = ResultMessage(
@@ -869,7 +889,7 @@ SubProcessHandle = asyncio.subprocess.Process
 
 
 class SubActorPoolBase(ActorPoolBase):
-    __slots__ = ("_main_address", "_watch_main_pool_task")
+    __slots__ = ("_main_address", "_create_message_ids", "_watch_main_pool_task")
     _watch_main_pool_task: Optional[asyncio.Task]
 
     def __init__(
@@ -896,6 +916,8 @@ class SubActorPoolBase(ActorPoolBase):
             servers,
         )
         self._main_address = main_address
+        # actor id -> id of the message that created it
+        self._create_message_ids: dict[bytes, bytes] = dict()
         if main_pool_pid:
             self._watch_main_pool_task = asyncio.create_task(
                 self._watch_main_pool(main_pool_pid)
@@ -918,9 +940,17 @@ class SubActorPoolBase(ActorPoolBase):
             await self.stop()
 
     async def notify_main_pool_to_destroy(
-        self, message: DestroyActorMessage
-    ):  # pragma: no cover
-        await self.call(self._main_address, message)
+        self, actor_id: bytes, create_message_id: bytes | None
+    ):
+        # the message that created the actor tells it
+        # from another one created with the same id meanwhile
+        remove_message = ControlMessage(
+            new_message_id(),
+            self.external_address,
+            ControlMessageType.remove_sub_pool_actor,
+            (self.external_address, actor_id, create_message_id),
+        )
+        await self.call(self._main_address, remove_message)
 
     async def notify_main_pool_to_create(self, message: CreateActorMessage):
         reg_message = ControlMessage(
@@ -934,8 +964,18 @@ class SubActorPoolBase(ActorPoolBase):
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
         result = await super().create_actor(message)
-        if not message.from_main:
-            await self.notify_main_pool_to_create(message)
+        if isinstance(result, ResultMessage):
+            self._create_message_ids[message.actor_id] = message.message_id
+            if not message.from_main:
+                try:
+                    await self.notify_main_pool_to_create(message)
+                except BaseException:
+                    # the main pool cannot know it, leave nothing behind
+                    destroy_message = DestroyActorMessage(
+                        message.message_id, result.result, protocol=message.protocol
+                    )
+                    await super().destroy_actor(destroy_message)
+                    raise
         return result
 
     @implements(AbstractActorPool.actor_ref)
@@ -955,9 +995,11 @@ class SubActorPoolBase(ActorPoolBase):
     @implements(AbstractActorPool.destroy_actor)
     async def destroy_actor(self, message: DestroyActorMessage) -> ResultMessageType:
         result = await super().destroy_actor(message)
-        if isinstance(result, ResultMessage) and not message.from_main:
+        if isinstance(result, ResultMessage):
+            actor_id = message.actor_ref.uid
+            create_message_id = self._create_message_ids.pop(actor_id, None)
             # sync back to main actor pool
-            await self.notify_main_pool_to_destroy(message)
+            await self.notify_main_pool_to_destroy(actor_id, create_message_id)
         return result
 
     @implements(AbstractActorPool.handle_control_command)
@@ -987,6 +1029,17 @@ class SubActorPoolBase(ActorPoolBase):
             await self._watch_main_pool_task
 
 
+class _Placeholder:
+    """Occupies a process on behalf of an actor that is being created."""
+
+    __slots__ = ("destroyed",)
+
+    def __init__(self):
+        # set if the sub pool tells that the actor is destroyed
+        # before telling that it is created
+        self.destroyed = False
+
+
 class MainActorPoolBase(ActorPoolBase):
     __slots__ = (
         "_allocated_actors",
@@ -1067,44 +1120,85 @@ class MainActorPoolBase(ActorPoolBase):
                     self._config, self._allocated_actors
                 )
                 # set placeholder to make sure this label is occupied
-                self._allocated_actors[address][None] = (allocate_strategy, message)
-            if address == self.external_address:
-                # creating actor on main actor pool
-                result = await super().create_actor(message)
-                if isinstance(result, ResultMessage):
-                    self._allocated_actors[self.external_address][result.result] = (
-                        allocate_strategy,
-                        message,
-                    )
-                processor.result = result
-            else:
-                # creating actor on sub actor pool
-                # rewrite allocate strategy to AddressSpecified
-                new_allocate_strategy = AddressSpecified(address)
-                new_create_actor_message = CreateActorMessage(
-                    message.message_id,
-                    message.actor_cls,
-                    message.actor_id,
-                    message.args,
-                    message.kwargs,
-                    allocate_strategy=new_allocate_strategy,
-                    from_main=True,
-                    protocol=message.protocol,
-                    message_trace=message.message_trace,
+                placeholder = _Placeholder()
+                self._allocated_actors[address][placeholder] = (
+                    allocate_strategy,
+                    message,
                 )
-                result = await self.call(address, new_create_actor_message)
-                if isinstance(result, ResultMessage):
-                    self._allocated_actors[address][result.result] = (
-                        allocate_strategy,
-                        new_create_actor_message,
+            try:
+                if address == self.external_address:
+                    # creating actor on main actor pool
+                    result = await super().create_actor(message)
+                    if isinstance(result, ResultMessage):
+                        self._allocated_actors[self.external_address][result.result] = (
+                            allocate_strategy,
+                            message,
+                        )
+                    processor.result = result
+                else:
+                    # creating actor on sub actor pool
+                    # rewrite allocate strategy to AddressSpecified
+                    new_allocate_strategy = AddressSpecified(address)
+                    new_create_actor_message = CreateActorMessage(
+                        message.message_id,
+                        message.actor_cls,
+                        message.actor_id,
+                        message.args,
+                        message.kwargs,
+                        allocate_strategy=new_allocate_strategy,
+                        from_main=True,
+                        protocol=message.protocol,
+                        message_trace=message.message_trace,
                     )
-                processor.result = result
-
-            # revert placeholder
-            self._allocated_actors[address].pop(None, None)
+                    result = await self._call_sub_pool(
+                        address, new_create_actor_message
+                    )
+                    if (
+                        isinstance(result, ResultMessage) and not placeholder.destroyed
+                    ):
+                        self._allocated_actors[address][result.result] = (
+                            allocate_strategy,
+                            new_create_actor_message,
+                        )
+                    processor.result = result
+            finally:
+                # revert placeholder
+                self._allocated_actors[address].pop(placeholder, None)
 
         return processor.result
 
+    async def _call_sub_pool(
+        self, address: str, message: _MessageBase
+    ) -> ResultMessageType:
+        """
+        Let a sub pool create or destroy an actor.
+
+        When cancelled, the sub pool is asked to cancel as well, but its
+        answer is awaited in any case, to know if the actor exists or not.
+        """
+        task = asyncio.create_task(self.call(address, message))
+        while not task.done():
+            try:
+                await asyncio.shield(task)
+            except asyncio.CancelledError:
+                if not task.done():
+                    cancel_message = CancelMessage(
+                        new_message_id(),
+                        address,
+                        message.message_id,
+                        protocol=message.protocol,
+                    )
+                    cancel_task = asyncio.create_task(
+                        self.call(address, cancel_message)
+                    )
+                    cancel_task.add_done_callback(
+                        lambda t: t.cancelled() or t.exception()
+                    )
+            except Exception:  # pylint: disable=broad-except
+                # raised below
+                pass
+        return task.result()
+
     @implements(AbstractActorPool.has_actor)
     async def has_actor(self, message: HasActorMessage) -> ResultMessage:
         actor_ref = message.actor_ref
@@ -1131,19 +1225,18 @@ class MainActorPoolBase(ActorPoolBase):
             result = await super().destroy_actor(message)
             if result.message_type == MessageType.error:
                 return result
-            del self._allocated_actors[self.external_address][real_actor_ref]
+            self._allocated_actors[self.external_address].pop(real_actor_ref, None)
             return ResultMessage(
                 message.message_id, real_actor_ref.uid, protocol=message.protocol
             )
-        # remove allocated actor ref
-        self._allocated_actors[real_actor_ref.address].pop(real_actor_ref, None)
         new_destroy_message = DestroyActorMessage(
             message.message_id,
             real_actor_ref,
             from_main=True,
             protocol=message.protocol,
         )
-        return await self.call(real_actor_ref.address, new_destroy_message)
+        # the sub pool removes it from allocated actors once destroyed
+        return await self._call_sub_pool(real_actor_ref.address, new_destroy_message)
 
     @implements(AbstractActorPool.send)
     async def send(self, message: SendMessage) -> ResultMessageType:
@@ -1283,6 +1376,20 @@ class MainActorPoolBase(ActorPoolBase):
                 processor.result = ResultMessage(
                     message.message_id, True, protocol=message.protocol
                 )
+            elif (
+                message.control_message_type == ControlMessageType.remove_sub_pool_actor
+            ):
+                address, actor_id, create_message_id = message.content
+                allocated = self._allocated_actors[address]
+                for key, (_, create_message) in list(allocated.items()):
+                    if create_message.message_id == create_message_id:
+                        if isinstance(key, _Placeholder):
+                            key.destroyed = True
+                        else:
+                            del allocated[key]
+                processor.result = ResultMessage(
+                    message.message_id, True, protocol=message.protocol
+                )
             else:
                 processor.result = await self.call(message.address, message)
         return processor.result
-- 
2.43.0


From 4f58c4c85ffb3a8caf75213d44582a646c93e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 13/23] fix: recover a crashed sub pool whatever happens
 meanwhile, call its callbacks once

The down callback was run every half second while a process stayed down, a
callback that raised prevented the recovery for good, and actors created or
destroyed while the others were being restored aborted the recovery.
---
 python/xoscar/backends/indigen/pool.py | 33 ++++++++++++++++++++++---
 python/xoscar/backends/pool.py         | 34 ++++++++++++++++++++++----
 2 files changed, 58 insertions(+), 9 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 9254bf6..efbf68d 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -35,12 +35,15 @@ from typing import List, Optional
 import psutil
 
 from ..._utils import reset_id_random_seed
+from ...core import ActorRef
+from ...errors import ActorAlreadyExist
 from ...utils import ensure_coverage
 from ..config import ActorPoolConfig
 from ..message import (
     ControlMessage,
     ControlMessageType,
     CreateActorMessage,
+    ErrorMessage,
     new_message_id,
 )
 from ..pool import MainActorPoolBase, SubActorPoolBase, _register_message_handler
@@ -494,16 +497,38 @@ class MainActorPool(MainActorPoolBase):
 
     async def recover_sub_pool(self, address: str):
         process_index = self._config.get_process_index(address)
+        allocated = self._allocated_actors[address]
+        lost = dict(allocated)
         # process dead, restart it
         # remember always use spawn to recover sub pool
         task = asyncio.create_task(self.start_sub_pool(self._config, process_index))
         self.sub_processes[address] = (await self.wait_sub_pools_ready([task]))[0][0]
 
         if self._auto_recover == "actor":
-            # need to recover all created actors
-            for _, message in self._allocated_actors[address].values():
-                create_actor_message: CreateActorMessage = message  # type: ignore
-                await self.call(address, create_actor_message)
+            # need to recover all created actors,
+            # others may be created or destroyed meanwhile
+            recovered = set()
+            while pending := [
+                (ref, entry)
+                for ref, entry in allocated.items()
+                if isinstance(ref, ActorRef) and ref not in recovered
+            ]:
+                for ref, entry in pending:
+                    recovered.add(ref)
+                    if allocated.get(ref) is not entry:
+                        continue
+                    create_actor_message: CreateActorMessage = entry[1]  # type: ignore
+                    result = await self.call(address, create_actor_message)
+                    if not isinstance(result, ErrorMessage):
+                        continue
+                    if lost.get(ref) is not entry and isinstance(
+                        result.error, ActorAlreadyExist
+                    ):
+                        # created in the new process already
+                        continue
+                    logger.error("Recover actor %s failed: %s", ref, result.error)
+                    if allocated.get(ref) is entry:
+                        del allocated[ref]
 
     async def start(self):
         await super().start()
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 0b01208..6344d88 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -963,9 +963,12 @@ class SubActorPoolBase(ActorPoolBase):
 
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
+        exists = message.actor_id in self._actors
+        if not exists:
+            # it may be destroyed before its creation ends
+            self._create_message_ids[message.actor_id] = message.message_id
         result = await super().create_actor(message)
         if isinstance(result, ResultMessage):
-            self._create_message_ids[message.actor_id] = message.message_id
             if not message.from_main:
                 try:
                     await self.notify_main_pool_to_create(message)
@@ -976,6 +979,11 @@ class SubActorPoolBase(ActorPoolBase):
                     )
                     await super().destroy_actor(destroy_message)
                     raise
+        elif (
+            not exists
+            and self._create_message_ids.get(message.actor_id) == message.message_id
+        ):
+            del self._create_message_ids[message.actor_id]
         return result
 
     @implements(AbstractActorPool.actor_ref)
@@ -1048,6 +1056,7 @@ class MainActorPoolBase(ActorPoolBase):
         "_monitor_task",
         "_on_process_down",
         "_on_process_recover",
+        "_down_processes",
         "_recover_events",
         "_allocation_lock",
         "sub_processes",
@@ -1083,6 +1092,8 @@ class MainActorPoolBase(ActorPoolBase):
         self._monitor_task: Optional[asyncio.Task] = None
         self._on_process_down = on_process_down
         self._on_process_recover = on_process_recover
+        # address -> dead process whose failure has been reported
+        self._down_processes: dict[str, SubProcessHandle] = dict()
         self._recover_events: dict[str, asyncio.Event] = dict()
 
         # states
@@ -1576,6 +1587,17 @@ class MainActorPoolBase(ActorPoolBase):
             # or only recover process, remove all created actors
             self._allocated_actors[address] = dict()
 
+    def _run_callback(
+        self, callback: Callable[[MainActorPoolType, str], None] | None, address: str
+    ):
+        if callback is None:
+            return
+        try:
+            callback(self, address)  # type: ignore
+        except Exception:  # pylint: disable=broad-except
+            # a failed callback must not prevent the recovery
+            logger.exception("Callback of sub pool %s failed", address)
+
     async def monitor_sub_pools(self):
         try:
             while not self._stopped.is_set():
@@ -1586,13 +1608,15 @@ class MainActorPoolBase(ActorPoolBase):
                         if not await self.is_sub_pool_alive(
                             process
                         ):  # pragma: no cover
-                            if self._on_process_down is not None:
-                                self._on_process_down(self, address)
+                            # report a failure only once, the process may stay
+                            # down, or fail to restart
+                            if self._down_processes.get(address) is not process:
+                                self._down_processes[address] = process
+                                self._run_callback(self._on_process_down, address)
                             self.process_sub_pool_lost(address)
                             if self._auto_recover:
                                 await self.recover_sub_pool(address)
-                                if self._on_process_recover is not None:
-                                    self._on_process_recover(self, address)
+                                self._run_callback(self._on_process_recover, address)
                         if recover_events_discovered:
                             event = self._recover_events.pop(address)
                             event.set()
-- 
2.43.0


From 044e2ec00dc07db110075528b20826b23f17b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 14/23] fix: fail every pending call when its connection is
 gone

A cancelled call among the pending ones stopped the others from being failed,
calls issued on a connection whose listener had ended already waited for
ever, and so did local calls pending when the server of their process was
stopped.
---
 python/xoscar/backends/communication/dummy.py | 16 ++++++++--
 python/xoscar/backends/core.py                | 32 +++++++++++++------
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/python/xoscar/backends/communication/dummy.py b/python/xoscar/backends/communication/dummy.py
index 4f1ddee..66c17af 100644
--- a/python/xoscar/backends/communication/dummy.py
+++ b/python/xoscar/backends/communication/dummy.py
@@ -32,6 +32,9 @@ DEFAULT_DUMMY_ADDRESS = "dummy://0"
 
 logger = logging.getLogger(__name__)
 
+# put into the queues when a channel is closed
+_CHANNEL_CLOSED = object()
+
 
 class DummyChannel(Channel):
     """
@@ -77,14 +80,23 @@ class DummyChannel(Channel):
         if self._closed.is_set():  # pragma: no cover
             raise ChannelClosed("Channel already closed, cannot write message")
         try:
-            return await self._in_queue.get()
+            message = await self._in_queue.get()
         except RuntimeError:
             if self._closed.is_set():
                 pass
+            return None
+        if message is _CHANNEL_CLOSED:
+            # same as the channels of other types
+            raise EOFError("Channel closed while reading message")
+        return message
 
     @implements(Channel.close)
     async def close(self):
-        self._closed.set()
+        if not self._closed.is_set():
+            self._closed.set()
+            # wake up who is receiving on either side
+            self._in_queue.put_nowait(_CHANNEL_CLOSED)
+            self._out_queue.put_nowait(_CHANNEL_CLOSED)
 
     @property
     @implements(Channel.closed)
diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index 75a49a5..1a821b1 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -122,12 +122,15 @@ class ActorCallerThreadLocal:
                 except DeserializeMessageFailed as e:
                     message_id = e.message_id
                     future = self._client_to_message_futures[client].pop(message_id)
-                    future.set_exception(e.__cause__)  # type: ignore
+                    if not future.done():
+                        future.set_exception(e.__cause__)  # type: ignore
                 except Exception as e:  # noqa: E722  # pylint: disable=bare-except
                     message_futures = self._client_to_message_futures[client]
                     self._client_to_message_futures[client] = dict()
                     for future in message_futures.values():
-                        future.set_exception(copy.copy(e))
+                        # cancelled calls are done already
+                        if not future.done():
+                            future.set_exception(copy.copy(e))
                 finally:
                     # message may have Ray ObjectRef, delete it early in case next loop doesn't run
                     # as soon as expected.
@@ -141,24 +144,35 @@ class ActorCallerThreadLocal:
                         pass
                     await asyncio.sleep(0)
 
-            message_futures = self._client_to_message_futures[client]
-            self._client_to_message_futures[client] = dict()
-            error = ServerClosed(f"Remote server {client.dest_address} closed")
-            for future in message_futures.values():
-                future.set_exception(copy.copy(error))
         finally:
+            # nobody will answer the calls any more, neither pending ones
+            # nor those about to be sent
+            message_futures = self._client_to_message_futures.pop(client)
+            error = ServerClosed(f"Remote server {client.dest_address} closed")
             try:
+                for future in message_futures.values():
+                    if not future.done():
+                        future.set_exception(copy.copy(error))
                 await client.close()
             except:  # noqa: E722  # nosec  # pylint: disable=bare-except
                 # ignore all error if fail to close at last
                 pass
 
+    def _add_future(
+        self, client: Client, message: _MessageBase, future: asyncio.Future
+    ):
+        message_futures = self._client_to_message_futures.get(client)
+        if message_futures is None:
+            # listening has stopped, the answer would never be received
+            raise ServerClosed(f"Remote server {client.dest_address} closed")
+        message_futures[message.message_id] = future
+
     async def call_with_client(
         self, client: Client, message: _MessageBase, wait: bool = True
     ) -> ResultMessage | ErrorMessage | asyncio.Future:
         loop = asyncio.get_running_loop()
         wait_response = loop.create_future()
-        self._client_to_message_futures[client][message.message_id] = wait_response
+        self._add_future(client, message, wait_response)
 
         with Timer() as timer:
             try:
@@ -188,7 +202,7 @@ class ActorCallerThreadLocal:
     ) -> ResultMessage | ErrorMessage | asyncio.Future:
         loop = asyncio.get_running_loop()
         wait_response = loop.create_future()
-        self._client_to_message_futures[client][meta_message.message_id] = wait_response
+        self._add_future(client, meta_message, wait_response)
 
         with Timer() as timer:
             try:
-- 
2.43.0


From dbc1d53a21df9317170691d18c7ed2875e2f4b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 15/23] fix: leave no sub process behind when a pool fails to
 start or is stopped

Sub processes that had been started already stayed alive if another one or the
main pool failed to start, if the creation was cancelled, or if the pool was
stopped while it was replacing a crashed one.
---
 python/xoscar/backends/indigen/pool.py |  30 ++++---
 python/xoscar/backends/pool.py         | 108 +++++++++++++++----------
 2 files changed, 86 insertions(+), 52 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index efbf68d..a7487cd 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -152,16 +152,20 @@ class MainActorPool(MainActorPoolBase):
     async def wait_sub_pools_ready(cls, create_pool_tasks: List[asyncio.Task]):
         processes: list[asyncio.subprocess.Process] = []
         ext_addresses = []
-        error = None
-        for task in create_pool_tasks:
-            process, address = await task
-            processes.append(process)
-            ext_addresses.append(address)
-        if error:
-            for p in processes:
-                # error happens, kill all subprocesses
-                p.kill()
-            raise error
+        try:
+            for task in create_pool_tasks:
+                process, address = await task
+                processes.append(process)
+                ext_addresses.append(address)
+        except BaseException:
+            # error happens, kill all subprocesses
+            for task in create_pool_tasks:
+                task.cancel()
+            results = await asyncio.gather(*create_pool_tasks, return_exceptions=True)
+            await cls._kill_sub_processes(
+                [r[0] for r in results if not isinstance(r, BaseException)]
+            )
+            raise
         return processes, ext_addresses
 
     @classmethod
@@ -274,6 +278,7 @@ class MainActorPool(MainActorPoolBase):
             start_python = sys.executable
 
         external_addresses: List | None = None
+        process: asyncio.subprocess.Process | None = None
         shm = shared_memory.SharedMemory(
             create=True, size=_SUBPROCESS_SHM_SIZE, track=False
         )
@@ -334,6 +339,11 @@ class MainActorPool(MainActorPoolBase):
             )
             for t in unfinished:
                 t.cancel()
+        except BaseException:
+            # not used by anyone, do not leave it behind
+            if process is not None:
+                await MainActorPool._kill_sub_processes([process])
+            raise
         finally:
             shm.close()
             shm.unlink()
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 6344d88..a49870e 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1423,49 +1423,59 @@ class MainActorPoolBase(ActorPoolBase):
         curr_process_index = config.get("process_index")
         old_config_addresses = set(actor_pool_config.get_external_addresses())
 
-        tasks = []
+        tasks: list[asyncio.Task] = []
+        processes: list[SubProcessHandle] = []
         subpool_process_idxes = []
-        # create sub actor pools
-        n_sub_pool = actor_pool_config.n_pool - 1
-        if n_sub_pool > 0:
-            process_indexes = actor_pool_config.get_process_indexes()
-            for process_index in process_indexes:
-                if process_index == curr_process_index:
-                    continue
-                create_pool_task = asyncio.create_task(
-                    cls.start_sub_pool(actor_pool_config, process_index)
-                )
-                await asyncio.sleep(0)
-                # await create_pool_task
-                tasks.append(create_pool_task)
-                subpool_process_idxes.append(process_index)
-
-        processes, ext_addresses = await cls.wait_sub_pools_ready(tasks)
-        if ext_addresses:
-            for process_index, ext_address in zip(subpool_process_idxes, ext_addresses):
-                actor_pool_config.reset_pool_external_address(
-                    process_index, ext_address
-                )
+        pool: MainActorPoolType | None = None
+        try:
+            # create sub actor pools
+            n_sub_pool = actor_pool_config.n_pool - 1
+            if n_sub_pool > 0:
+                process_indexes = actor_pool_config.get_process_indexes()
+                for process_index in process_indexes:
+                    if process_index == curr_process_index:
+                        continue
+                    create_pool_task = asyncio.create_task(
+                        cls.start_sub_pool(actor_pool_config, process_index)
+                    )
+                    # await create_pool_task
+                    tasks.append(create_pool_task)
+                    subpool_process_idxes.append(process_index)
+
+            processes, ext_addresses = await cls.wait_sub_pools_ready(tasks)
+            if ext_addresses:
+                for process_index, ext_address in zip(
+                    subpool_process_idxes, ext_addresses
+                ):
+                    actor_pool_config.reset_pool_external_address(
+                        process_index, ext_address
+                    )
 
-        # create main actor pool
-        pool: MainActorPoolType = await super().create(config)
-        addresses = actor_pool_config.get_external_addresses()[1:]
-
-        assert len(addresses) == len(
-            processes
-        ), f"addresses {addresses}, processes {processes}"
-        for addr, proc in zip(addresses, processes):
-            pool.attach_sub_process(addr, proc)
-
-        new_config_addresses = set(actor_pool_config.get_external_addresses())
-        if old_config_addresses != new_config_addresses:
-            control_message = ControlMessage(
-                message_id=new_message_id(),
-                address=pool.external_address,
-                control_message_type=ControlMessageType.sync_config,
-                content=actor_pool_config,
-            )
-            await pool.handle_control_command(control_message)
+            # create main actor pool
+            pool = await super().create(config)
+            addresses = actor_pool_config.get_external_addresses()[1:]
+
+            assert len(addresses) == len(
+                processes
+            ), f"addresses {addresses}, processes {processes}"
+            for addr, proc in zip(addresses, processes):
+                pool.attach_sub_process(addr, proc)
+
+            new_config_addresses = set(actor_pool_config.get_external_addresses())
+            if old_config_addresses != new_config_addresses:
+                control_message = ControlMessage(
+                    message_id=new_message_id(),
+                    address=pool.external_address,
+                    control_message_type=ControlMessageType.sync_config,
+                    content=actor_pool_config,
+                )
+                await pool.handle_control_command(control_message)
+        except BaseException:
+            # no process must be left behind if the pool is not created
+            await cls._kill_sub_processes(processes)
+            if pool is not None:
+                await pool.stop()
+            raise
 
         return pool
 
@@ -1511,6 +1521,16 @@ class MainActorPoolBase(ActorPoolBase):
     async def wait_sub_pools_ready(cls, create_pool_tasks: list[asyncio.Task]):
         """Wait all sub pools ready"""
 
+    @staticmethod
+    async def _kill_sub_processes(processes: list[SubProcessHandle]):
+        for process in processes:
+            try:
+                process.kill()
+            except ProcessLookupError:
+                # already terminated
+                pass
+        await asyncio.gather(*(process.wait() for process in processes))
+
     def attach_sub_process(self, external_address: str, process: SubProcessHandle):
         self.sub_processes[external_address] = process
 
@@ -1772,5 +1792,9 @@ async def create_actor_pool(
             "on_process_recover": on_process_recover,
         }
     )
-    await pool.start()
+    try:
+        await pool.start()
+    except BaseException:
+        await pool.stop()
+        raise
     return pool
-- 
2.43.0


From edc8ae3668f4c1a5a15b0770714c6564fb585cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 16/23] fix: let a kill reach a process that has just replaced
 a crashed one

---
 python/xoscar/backends/indigen/pool.py | 10 ++++++++--
 python/xoscar/backends/pool.py         |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index a7487cd..09c11f0 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -511,8 +511,14 @@ class MainActorPool(MainActorPoolBase):
         lost = dict(allocated)
         # process dead, restart it
         # remember always use spawn to recover sub pool
-        task = asyncio.create_task(self.start_sub_pool(self._config, process_index))
-        self.sub_processes[address] = (await self.wait_sub_pools_ready([task]))[0][0]
+        self._restarting[address] = restarted = asyncio.Event()
+        try:
+            task = asyncio.create_task(self.start_sub_pool(self._config, process_index))
+            processes, _ = await self.wait_sub_pools_ready([task])
+            self.sub_processes[address] = processes[0]
+        finally:
+            del self._restarting[address]
+            restarted.set()
 
         if self._auto_recover == "actor":
             # need to recover all created actors,
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index a49870e..255adfc 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1058,6 +1058,7 @@ class MainActorPoolBase(ActorPoolBase):
         "_on_process_recover",
         "_down_processes",
         "_recover_events",
+        "_restarting",
         "_allocation_lock",
         "sub_processes",
     )
@@ -1095,6 +1096,8 @@ class MainActorPoolBase(ActorPoolBase):
         # address -> dead process whose failure has been reported
         self._down_processes: dict[str, SubProcessHandle] = dict()
         self._recover_events: dict[str, asyncio.Event] = dict()
+        # address -> event that is set when its new process is known, or failed
+        self._restarting: dict[str, asyncio.Event] = dict()
 
         # states
         self._allocated_actors: allocated_type = {
@@ -1357,6 +1360,9 @@ class MainActorPoolBase(ActorPoolBase):
                 timeout, force = (
                     message.content if message.content is not None else (None, False)
                 )
+                if message.address in self._restarting:
+                    # the new process may serve already, do not miss it
+                    await self._restarting[message.address].wait()
                 await self.stop_sub_pool(
                     message.address,
                     self.sub_processes[message.address],
-- 
2.43.0


From 32512ce5eb6c63c0a2a62023a5c5c3f5a7981c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 17/23] fix: keep a pool consistent when processes are added
 and removed

---
 python/xoscar/backends/config.py       |  3 +
 python/xoscar/backends/indigen/pool.py | 64 +++++++++++++-----
 python/xoscar/backends/pool.py         | 90 +++++++++++++++++++-------
 3 files changed, 117 insertions(+), 40 deletions(-)

diff --git a/python/xoscar/backends/config.py b/python/xoscar/backends/config.py
index 8b34212..12b4096 100644
--- a/python/xoscar/backends/config.py
+++ b/python/xoscar/backends/config.py
@@ -36,6 +36,9 @@ class ActorPoolConfig:
         if "proxy" not in self._conf:
             self._conf["proxy"] = dict()
 
+    def copy(self) -> ActorPoolConfig:
+        return ActorPoolConfig({key: conf.copy() for key, conf in self._conf.items()})
+
     @property
     def n_pool(self):
         return len(self._conf["pools"])
diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 09c11f0..97c9f29 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -30,13 +30,13 @@ import threading
 import time
 import uuid
 from enum import IntEnum
-from typing import List, Optional
+from typing import Any, Coroutine, List, Optional
 
 import psutil
 
 from ..._utils import reset_id_random_seed
 from ...core import ActorRef
-from ...errors import ActorAlreadyExist
+from ...errors import ActorAlreadyExist, ServerClosed
 from ...utils import ensure_coverage
 from ..config import ActorPoolConfig
 from ..message import (
@@ -387,7 +387,9 @@ class MainActorPool(MainActorPoolBase):
             process_index, external_address
         )
 
-        self._config.add_pool_conf(
+        # the process must not be listed, and used, before it is started
+        config = self._config.copy()
+        config.add_pool_conf(
             process_index,
             label,
             internal_address,
@@ -399,40 +401,64 @@ class MainActorPool(MainActorPoolBase):
             _logging_conf,
             kwargs,
         )
-
-        process, external_addresses = await self._create_sub_pool_from_parent(
-            self._config, process_index, start_python
+        if self._stopped.is_set():
+            raise ServerClosed(f"Pool {self.external_address} is stopped")
+        task = asyncio.create_task(
+            self._create_sub_pool_from_parent(config, process_index, start_python)
         )
+        self._append_tasks.add(task)
+        task.add_done_callback(self._append_tasks.discard)
+        try:
+            process, external_addresses = await task
+        except asyncio.CancelledError:
+            if self._stopped.is_set():
+                raise ServerClosed(
+                    f"Pool {self.external_address} is stopped"
+                ) from None
+            raise
 
+        self._config.add_pool_conf(
+            process_index, **config.get_pool_config(process_index)
+        )
         self._config.reset_pool_external_address(process_index, external_addresses[0])
         self.attach_sub_process(external_addresses[0], process)
+        await self.start_monitor()
 
-        control_message = ControlMessage(
-            message_id=new_message_id(),
-            address=self.external_address,
-            control_message_type=ControlMessageType.sync_config,
-            content=self._config,
-        )
-        await self.handle_control_command(control_message)
+        await self._sync_config()
         # The actual port will return in process_status.
         return external_addresses[0]
 
     async def remove_sub_pool(
         self, external_address: str, timeout: float | None = None, force: bool = False
     ):
-        process = self.sub_processes[external_address]
+        if external_address in self._restarting:
+            # the process that is being started has to be stopped, too
+            await self._restarting[external_address].wait()
+        process = self.detach_sub_process(external_address)
         process_index = self._config.get_process_index(external_address)
-        del self.sub_processes[external_address]
         self._config.remove_pool_config(process_index)
-        await self.stop_sub_pool(external_address, process, timeout, force)
 
+        # once detached, the process has to be stopped in any case
+        await self._run_shielded(
+            self.stop_sub_pool(external_address, process, timeout, force)
+        )
+
+        await self._sync_config()
+
+    async def _run_shielded(self, coro: Coroutine[Any, Any, Any]):
+        task = asyncio.create_task(coro)
+        self._shielded_tasks.add(task)
+        task.add_done_callback(self._shielded_tasks.discard)
+        return await asyncio.shield(task)
+
+    async def _sync_config(self):
         control_message = ControlMessage(
             message_id=new_message_id(),
             address=self.external_address,
             control_message_type=ControlMessageType.sync_config,
             content=self._config,
         )
-        await self.handle_control_command(control_message)
+        await self._run_shielded(self.handle_control_command(control_message))
 
     async def kill_sub_pool(
         self, process: asyncio.subprocess.Process, force: bool = False
@@ -511,6 +537,7 @@ class MainActorPool(MainActorPoolBase):
         lost = dict(allocated)
         # process dead, restart it
         # remember always use spawn to recover sub pool
+        addresses = self._config.get_external_addresses()
         self._restarting[address] = restarted = asyncio.Event()
         try:
             task = asyncio.create_task(self.start_sub_pool(self._config, process_index))
@@ -519,6 +546,9 @@ class MainActorPool(MainActorPoolBase):
         finally:
             del self._restarting[address]
             restarted.set()
+        if self._config.get_external_addresses() != addresses:
+            # the process was started with an outdated config
+            await self._sync_config()
 
         if self._auto_recover == "actor":
             # need to recover all created actors,
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 255adfc..3e37124 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1060,6 +1060,9 @@ class MainActorPoolBase(ActorPoolBase):
         "_recover_events",
         "_restarting",
         "_allocation_lock",
+        "_sync_config_lock",
+        "_append_tasks",
+        "_shielded_tasks",
         "sub_processes",
     )
 
@@ -1104,6 +1107,13 @@ class MainActorPoolBase(ActorPoolBase):
             addr: dict() for addr in self._config.get_external_addresses()
         }
         self._allocation_lock = threading.Lock()
+        # keeps the order of configs sent to the sub pools
+        self._sync_config_lock = asyncio.Lock()
+
+        # running additions of sub processes, and what has to be
+        # completed even if the addition or removal is cancelled
+        self._append_tasks: set[asyncio.Task] = set()
+        self._shielded_tasks: set[asyncio.Task] = set()
 
         self.sub_processes: dict[str, SubProcessHandle] = dict()
 
@@ -1167,17 +1177,21 @@ class MainActorPoolBase(ActorPoolBase):
                     result = await self._call_sub_pool(
                         address, new_create_actor_message
                     )
+                    allocated = self._allocated_actors.get(address)
                     if (
-                        isinstance(result, ResultMessage) and not placeholder.destroyed
+                        isinstance(result, ResultMessage)
+                        and not placeholder.destroyed
+                        # the sub pool may be removed meanwhile
+                        and allocated is not None
                     ):
-                        self._allocated_actors[address][result.result] = (
+                        allocated[result.result] = (
                             allocate_strategy,
                             new_create_actor_message,
                         )
                     processor.result = result
             finally:
                 # revert placeholder
-                self._allocated_actors[address].pop(placeholder, None)
+                self._allocated_actors.get(address, dict()).pop(placeholder, None)
 
         return processor.result
 
@@ -1336,24 +1350,27 @@ class MainActorPoolBase(ActorPoolBase):
             if message.address == self.external_address:
                 if message.control_message_type == ControlMessageType.sync_config:
                     # sync config, need to notify all sub pools
-                    tasks = []
-                    for addr in self.sub_processes:
-                        control_message = ControlMessage(
-                            new_message_id(),
-                            message.address,
-                            message.control_message_type,
-                            message.content,
-                            protocol=message.protocol,
-                            message_trace=message.message_trace,
-                        )
-                        tasks.append(
-                            asyncio.create_task(self.call(addr, control_message))
+                    async with self._sync_config_lock:
+                        tasks = []
+                        for addr in self.sub_processes:
+                            control_message = ControlMessage(
+                                new_message_id(),
+                                message.address,
+                                message.control_message_type,
+                                message.content,
+                                protocol=message.protocol,
+                                message_trace=message.message_trace,
+                            )
+                            tasks.append(
+                                asyncio.create_task(self.call(addr, control_message))
+                            )
+                        # call super
+                        task = asyncio.create_task(
+                            super().handle_control_command(message)
                         )
-                    # call super
-                    task = asyncio.create_task(super().handle_control_command(message))
-                    tasks.append(task)
-                    await asyncio.gather(*tasks)
-                    processor.result = await task
+                        # a sub pool that is down gets the config when restarted
+                        await asyncio.gather(*tasks, return_exceptions=True)
+                        processor.result = await task
                 else:
                     processor.result = await super().handle_control_command(message)
             elif message.control_message_type == ControlMessageType.stop:
@@ -1373,7 +1390,11 @@ class MainActorPoolBase(ActorPoolBase):
                     message.message_id, True, protocol=message.protocol
                 )
             elif message.control_message_type == ControlMessageType.wait_pool_recovered:
-                if self._auto_recover and message.address not in self._recover_events:
+                if (
+                    self._auto_recover
+                    and message.address in self.sub_processes
+                    and message.address not in self._recover_events
+                ):
                     self._recover_events[message.address] = asyncio.Event()
 
                 event = self._recover_events.get(message.address, None)
@@ -1509,7 +1530,15 @@ class MainActorPoolBase(ActorPoolBase):
             except asyncio.CancelledError:
                 pass  # Expected when cancelling the task
             self._monitor_task = None
+        # no sub process should be added from now on
+        append_tasks = list(self._append_tasks)
+        for task in append_tasks:
+            task.cancel()
+        if append_tasks:
+            await asyncio.wait(append_tasks)
         await self.stop_sub_pools()
+        if self._shielded_tasks:
+            await asyncio.wait(self._shielded_tasks)
         await super().stop()
 
     @classmethod
@@ -1539,6 +1568,17 @@ class MainActorPoolBase(ActorPoolBase):
 
     def attach_sub_process(self, external_address: str, process: SubProcessHandle):
         self.sub_processes[external_address] = process
+        self._allocated_actors.setdefault(external_address, dict())
+
+    def detach_sub_process(self, external_address: str) -> SubProcessHandle:
+        process = self.sub_processes.pop(external_address)
+        self._allocated_actors.pop(external_address, None)
+        self._down_processes.pop(external_address, None)
+        recover_event = self._recover_events.pop(external_address, None)
+        if recover_event is not None:
+            # it will not be recovered
+            recover_event.set()
+        return process
 
     async def stop_sub_pools(self):
         to_stop_processes: dict[str, SubProcessHandle] = dict()  # type: ignore
@@ -1629,6 +1669,9 @@ class MainActorPoolBase(ActorPoolBase):
             while not self._stopped.is_set():
                 # Copy sub_processes to avoid changes during recover.
                 for address, process in list(self.sub_processes.items()):
+                    if self.sub_processes.get(address) is not process:
+                        # removed meanwhile
+                        continue
                     try:
                         recover_events_discovered = address in self._recover_events
                         if not await self.is_sub_pool_alive(
@@ -1644,8 +1687,9 @@ class MainActorPoolBase(ActorPoolBase):
                                 await self.recover_sub_pool(address)
                                 self._run_callback(self._on_process_recover, address)
                         if recover_events_discovered:
-                            event = self._recover_events.pop(address)
-                            event.set()
+                            event = self._recover_events.pop(address, None)
+                            if event is not None:
+                                event.set()
                     except asyncio.CancelledError:
                         raise
                     except RuntimeError as ex:  # pragma: no cover
-- 
2.43.0


From df4f0a34357a872d52c4e628329cf36d9e4607d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 18/23] fix: report a failed copy instead of success, complete
 short writes to files

---
 python/xoscar/backends/context.py | 15 ++++++++++-----
 python/xoscar/backends/pool.py    |  8 +++++++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index 1f788df..f4f5d33 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -368,11 +368,12 @@ class IndigenActorContext(BaseActorContext):
         client = await self._get_client(address)
         if isinstance(client, UCXClient):
             message = [(buf.address, buf.uid) for buf in remote_buffer_refs]
-            await self._call_send_buffers(
+            result = await self._call_send_buffers(
                 client,
                 local_buffers,
                 self._gen_switch_to_copy_to_control_message(message),
             )
+            self._process_result_message(result)  # type: ignore
         else:
             # ``local_buffers`` will be divided into buffers of the specified block size for transmission.
             # Smaller buffers will be accumulated and sent together,
@@ -393,9 +394,10 @@ class IndigenActorContext(BaseActorContext):
                     one_block_data.append(
                         (r_buf.address, r_buf.uid, last_start, remain, l_buf[:remain])
                     )
-                    await self._call_with_client(
+                    result = await self._call_with_client(
                         client, self._gen_copy_to_buffers_message(one_block_data)
                     )
+                    self._process_result_message(result)  # type: ignore
                     one_block_data = []
                     current_buf_size = 0
                     last_start += remain
@@ -408,9 +410,10 @@ class IndigenActorContext(BaseActorContext):
                     current_buf_size = len(l_buf)
 
             if one_block_data:
-                await self._call_with_client(
+                result = await self._call_with_client(
                     client, self._gen_copy_to_buffers_message(one_block_data)
                 )
+                self._process_result_message(result)  # type: ignore
 
     async def copy_to_fileobjs(
         self,
@@ -433,7 +436,8 @@ class IndigenActorContext(BaseActorContext):
                     current_file_size += len(file_data)
                     if current_file_size >= block_size:
                         message = self._gen_copy_to_fileobjs_message(one_block_data)
-                        await self._call_with_client(client, message)
+                        result = await self._call_with_client(client, message)
+                        self._process_result_message(result)  # type: ignore
                         one_block_data.clear()
                         current_file_size = 0
                 else:
@@ -441,5 +445,6 @@ class IndigenActorContext(BaseActorContext):
 
         if current_file_size > 0:
             message = self._gen_copy_to_fileobjs_message(one_block_data)
-            await self._call_with_client(client, message)
+            result = await self._call_with_client(client, message)
+            self._process_result_message(result)  # type: ignore
             one_block_data.clear()
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 3e37124..bfcf8ce 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -545,7 +545,13 @@ class AbstractActorPool(ABC):
     async def handle_copy_to_fileobjs_message(self, message) -> ResultMessage:
         for addr, uid, data in message.content:
             file_obj = FileObjectRef.get_local_file_object(FileObjectRef(addr, uid))
-            await file_obj.write(data)
+            # raw files may write less than they are given
+            written = await file_obj.write(data)
+            while written is not None and written < len(data):
+                if written <= 0:
+                    raise OSError("Failed to write to file object")
+                data = data[written:]
+                written = await file_obj.write(data)
         return ResultMessage(message_id=message.message_id, result=True)
 
     @property
-- 
2.43.0


From 398bcc40b3ff3b73cb2afac448ae0a00fb425dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 19/23] fix: compute again after a cancelled execution when
 failures are not cached

---
 python/xoscar/aio/lru.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/aio/lru.py b/python/xoscar/aio/lru.py
index 2cdf207..47d9b05 100644
--- a/python/xoscar/aio/lru.py
+++ b/python/xoscar/aio/lru.py
@@ -182,9 +182,9 @@ def alru_cache(
                     _cache_hit(wrapped, key)
                     return await asyncio.shield(fut)
 
-                exc = fut._exception
+                failed = fut.cancelled() or fut.exception() is not None
 
-                if exc is None or cache_exceptions:
+                if not failed or cache_exceptions:
                     _cache_hit(wrapped, key)
                     return fut.result()
 
-- 
2.43.0


From 8bce44ef3920fd32918486046e323f31bef9dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:12 +0000
Subject: [PATCH 20/23] fix: follow chained proxies, cancel calls through the
 proxies they took

---
 python/xoscar/backends/context.py | 49 ++++++++++++++++++++++++++-----
 python/xoscar/backends/router.py  | 26 +++++++++-------
 2 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index f4f5d33..b42351d 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -110,13 +110,21 @@ class IndigenActorContext(BaseActorContext):
         else:
             raise message.as_instanceof_cause()
 
-    async def _wait(self, future: asyncio.Future, address: str, message: _MessageBase):
+    async def _wait(
+        self,
+        future: asyncio.Future,
+        address: str,
+        message: _MessageBase,
+        proxy_addresses: list[str] | None = None,
+    ):
         try:
             await asyncio.shield(future)
         except asyncio.CancelledError:
             # shielded, being cancelled once more must not stop
             # the cancellation from reaching the remote side
-            cancel_task = asyncio.create_task(self.cancel(address, message.message_id))
+            cancel_task = asyncio.create_task(
+                self.cancel(address, message.message_id, proxy_addresses)
+            )
             cancel_task.add_done_callback(lambda t: t.cancelled() or t.exception())
             try:
                 await asyncio.shield(cancel_task)
@@ -169,7 +177,12 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)  # type: ignore
+        result = await self._wait(
+            future,  # type: ignore
+            actor_ref.address,
+            message,
+            actor_ref.proxy_addresses,
+        )
         return self._process_result_message(result)
 
     async def destroy_actor(self, actor_ref: ActorRef):
@@ -182,7 +195,12 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)  # type: ignore
+        result = await self._wait(
+            future,  # type: ignore
+            actor_ref.address,
+            message,
+            actor_ref.proxy_addresses,
+        )
         return self._process_result_message(result)
 
     async def kill_actor(self, actor_ref: ActorRef, force: bool = True):
@@ -229,7 +247,12 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)
+        result = await self._wait(
+            future,  # type: ignore
+            actor_ref.address,
+            message,
+            actor_ref.proxy_addresses,
+        )
         res = self._process_result_message(result)
         if res.address != connect_addr:
             res.address = fix_all_zero_ip(res.address, connect_addr)
@@ -266,16 +289,26 @@ class IndigenActorContext(BaseActorContext):
                 proxy_addresses=actor_ref.proxy_addresses,
             )
             if wait_response:
-                result = await self._wait(future, actor_ref.address, send_message)  # type: ignore
+                result = await self._wait(
+                    future,  # type: ignore
+                    actor_ref.address,
+                    send_message,
+                    actor_ref.proxy_addresses,
+                )
                 return self._process_result_message(result)
             else:
                 return future
 
-    async def cancel(self, address: str, cancel_message_id: bytes):
+    async def cancel(
+        self,
+        address: str,
+        cancel_message_id: bytes,
+        proxy_addresses: list[str] | None = None,
+    ):
         message = CancelMessage(
             new_message_id(), address, cancel_message_id, protocol=DEFAULT_PROTOCOL
         )
-        result = await self._call(address, message)
+        result = await self._call(address, message, proxy_addresses=proxy_addresses)
         return self._process_result_message(result)  # type: ignore
 
     async def wait_actor_pool_recovered(
diff --git a/python/xoscar/backends/router.py b/python/xoscar/backends/router.py
index 6200432..6ee05b5 100644
--- a/python/xoscar/backends/router.py
+++ b/python/xoscar/backends/router.py
@@ -159,16 +159,9 @@ class Router:
                 # no inner address, just use external address
                 address = external_address
                 # check if proxy address exists
-                proxy_address = proxy_addresses[-1] if proxy_addresses else None
-                if proxy_address is None:
-                    proxy_address = self.get_proxy(address)
-                    if proxy_address and proxy_address != self.external_address:
-                        address = proxy_address
-                else:
-                    if new_proxy_address := self.get_proxy(proxy_address):
-                        address = new_proxy_address
-                    else:
-                        address = proxy_address
+                if proxy_addresses:
+                    address = proxy_addresses[-1]
+                address = self._get_contact_address(address)
 
             client_type: Type[Client] = get_client_type(address)
             client = await self._create_client(client_type, address, **kw)
@@ -266,6 +259,19 @@ class Router:
             return addr
         return None
 
+    def _get_contact_address(self, address: str) -> str:
+        """
+        Get address to connect in order to reach an address.
+
+        The proxy of an address may be configured to be reached via
+        another proxy, follow the mapping until this process itself is the proxy.
+        """
+        while True:
+            proxy = self.get_proxy(address)
+            if not proxy or proxy == self.external_address:
+                return address
+            address = proxy
+
     def get_proxies(self, from_addr: str) -> list[str] | None:
         """
         Get all proxies
-- 
2.43.0


From 0bb12d8ef2130166dcdfbf815d651c54d6f516ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:39 +0000
Subject: [PATCH 21/23] fix: hang up when what was received cannot be decoded

What follows such bytes cannot be told apart from them: later calls over
the connection got lost among them. Also wake up all who receive from a
closed dummy channel.
---
 python/xoscar/backends/communication/dummy.py  |  2 ++
 python/xoscar/backends/communication/socket.py | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/python/xoscar/backends/communication/dummy.py b/python/xoscar/backends/communication/dummy.py
index 66c17af..5ec3da8 100644
--- a/python/xoscar/backends/communication/dummy.py
+++ b/python/xoscar/backends/communication/dummy.py
@@ -86,6 +86,8 @@ class DummyChannel(Channel):
                 pass
             return None
         if message is _CHANNEL_CLOSED:
+            # wake up the next one that is receiving
+            self._in_queue.put_nowait(_CHANNEL_CLOSED)
             # same as the channels of other types
             raise EOFError("Channel closed while reading message")
         return message
diff --git a/python/xoscar/backends/communication/socket.py b/python/xoscar/backends/communication/socket.py
index 77fbdfb..1d45544 100644
--- a/python/xoscar/backends/communication/socket.py
+++ b/python/xoscar/backends/communication/socket.py
@@ -32,6 +32,7 @@ from ..._utils import to_binary
 from ...constants import XOSCAR_CONNECT_TIMEOUT, XOSCAR_UNIX_SOCKET_DIR
 from ...serialization import AioDeserializer, AioSerializer, deserialize
 from ...utils import classproperty, implements, is_py_312, is_py_312_or_above, is_v6_ip
+from ..message import DeserializeMessageFailed
 from .base import Channel, ChannelType, Client, Server
 from .core import register_client, register_server
 from .errors import ChannelClosed
@@ -98,10 +99,18 @@ class SocketChannel(Channel):
     @implements(Channel.recv)
     async def recv(self):
         deserializer = AioDeserializer(self.reader)
-        async with self._recv_lock:
-            header = await deserializer.get_header()
-            buffers = await read_buffers(header, self.reader)
-        return deserialize(header, buffers)
+        try:
+            async with self._recv_lock:
+                header = await deserializer.get_header()
+                buffers = await read_buffers(header, self.reader)
+            return deserialize(header, buffers)
+        except DeserializeMessageFailed:
+            raise
+        except Exception:
+            # hang up, what follows undecodable bytes cannot be told apart
+            # from them
+            self.writer.close()
+            raise
 
     @implements(Channel.close)
     async def close(self):
-- 
2.43.0


From 56892c5cb0063523abda2d6ca267695d3437d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:58 +0000
Subject: [PATCH 22/23] fix: resolve in-process references through the pool,
 not to destroyed actors

---
 python/xoscar/core.pyx | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 0eaa1e3..b8423ca 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -63,6 +63,10 @@ cdef _get_local_actor(address, uid):
     # disabled the local actor proxy if the debug option is on.
     if _log_cycle_send:
         return None
+    return _lookup_local_actor(address, uid)
+
+
+cdef _lookup_local_actor(address, uid):
     pool_ref = _local_pool_map.get(address)
     pool = None if pool_ref is None else pool_ref()
     if pool is not None:
@@ -91,7 +95,7 @@ cpdef create_local_actor_ref(address, uid):
     """
     actor = _get_local_actor(address, uid)
     if actor is not None:
-        return LocalActorRef(actor)
+        return LocalActorRef(actor, address, uid)
     return None
 
 
@@ -106,7 +110,7 @@ cpdef create_actor_ref(address, uid, list proxy_addresses = None):
     """
     actor = _get_local_actor(address, uid)
     return ActorRef(address, uid, proxy_addresses=proxy_addresses) \
-        if actor is None else LocalActorRef(actor)
+        if actor is None else LocalActorRef(actor, address, uid)
 
 
 cdef class ActorRef:
@@ -243,16 +247,19 @@ cdef class ActorRefMethod:
 
 
 cdef class LocalActorRef(ActorRef):
-    def __init__(self, _BaseActor actor):
+    def __init__(self, _BaseActor actor, str address, object uid):
         # Make sure the input actor is an instance of _BaseActor.
-        super().__init__(actor._address, actor._uid)
+        super().__init__(address, uid)
         self._actor_weakref = weakref.ref(actor, lambda _: self._methods.clear())
 
     cdef _weakref_local_actor(self):
-        actor = _get_local_actor(self.address, self.uid)
+        # Always ask the pool: a destroyed actor may outlive its destruction,
+        # e.g. when it is referenced by a running call or by a reference cycle.
+        actor = _lookup_local_actor(self.address, self.uid)
         # Make sure the input actor is an instance of _BaseActor.
         if actor is not None and isinstance(actor, _BaseActor):
-            self._actor_weakref = weakref.ref(actor, lambda _: self._methods.clear())
+            if self._actor_weakref() is not actor:
+                self._actor_weakref = weakref.ref(actor, lambda _: self._methods.clear())
             return actor
         return None
 
@@ -260,7 +267,7 @@ cdef class LocalActorRef(ActorRef):
         try:
             return self._methods[item]
         except KeyError:
-            actor = self._actor_weakref() or self._weakref_local_actor()
+            actor = self._weakref_local_actor()
             if actor is None:
                 raise ActorNotExist(f"Actor {self.uid} does not exist") from None
             # For detecting the attribute error.
@@ -306,7 +313,7 @@ cdef class LocalActorRefMethod:
         self._method_name = method_name
 
     cdef tuple _get_referent(self):
-        actor = self._local_actor_ref._actor_weakref() or self._local_actor_ref._weakref_local_actor()
+        actor = self._local_actor_ref._weakref_local_actor()
         if actor is None:
             raise ActorNotExist(f"Actor {self._local_actor_ref.uid} does not exist.")
         method = getattr(actor, self._method_name)
-- 
2.43.0


From aa531b56337b228d1ac35d43e7e375f001d5a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:57 +0000
Subject: [PATCH 23/23] fix: forget clients whose connection is gone

---
 python/xoscar/backends/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index 1a821b1..a10442d 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -157,6 +157,9 @@ class ActorCallerThreadLocal:
             except:  # noqa: E722  # nosec  # pylint: disable=bare-except
                 # ignore all error if fail to close at last
                 pass
+            finally:
+                # or clients lost over time pile up, along with what they held
+                self._clients.pop(client, None)
 
     def _add_future(
         self, client: Client, message: _MessageBase, future: asyncio.Future
-- 
2.43.0

