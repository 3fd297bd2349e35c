import json
B="python/xoscar/backends/"
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=hook)))
p("P01","Calls run at most once, and each caller gets its own call's result",
 "An actor call (send, tell, batch or concurrent mix) that returns successfully has executed exactly once on the addressed actor, and a call that fails or is lost has executed at most once. The value a caller receives is the value its own call produced, never that of another call, whatever else is in flight between the same or other processes, pools and transports.",
 ["schedules","fault_sequences","histories"],"All interleavings of concurrent calls from many clients over in-process, unix-socket and TCP channels, with connection loss, delay, fragmentation and process death at any point.",
 "Tests issue a handful of sequential calls on a healthy loopback; duplicated dispatch, crossed replies or resends after a broken connection only show under concurrent traffic and faults.",
 [B+"core.py",B+"pool.py",B+"context.py",B+"router.py",B+"communication/socket.py",B+"communication/dummy.py"],
 [("reply matched to pending future by message id",B+"core.py:ActorCallerThreadLocal._listen/call_with_client"),("per-message task, one reply per message",B+"pool.py:AbstractActorPool.process_message"),("client cache per address and caller",B+"router.py:Router.get_client")],
 [("_client_to_message_futures","pending calls of each client connection",B+"core.py"),("_process_messages","messages being processed",B+"pool.py")],
 ["value returned or raised by await ref.method(...)","executions recorded by the actor"])
p("P02","A stateful actor never runs two locked method bodies at once",
 "For every stateful actor, at most one locked method body (plain, coroutine, batch, or the part of an async-generator method between two yields) is executing at any instant, whether the caller is remote, in another thread's process or holds a local reference; methods marked no_lock and stateless actors are exempt. After a method returns, raises or is cancelled the actor accepts the next call, so the lock is never leaked.",
 ["schedules","fault_sequences"],"All interleavings of remote and local sends, tells, batches, yields, exceptions and cancellations on one actor.",
 "Tests check one or two overlapping calls; exclusivity must hold for all arrival orders and cancellation instants, across the two separate dispatch paths (remote and local).",
 ["python/xoscar/core.pyx","python/xoscar/api.py",B+"pool.py"],
 [("actor lock around dispatch","python/xoscar/core.pyx:_BaseActor.__on_receive__"),("actor lock in local dispatch","python/xoscar/core.pyx:__pyx_actor_method_wrapper"),("lock re-acquired per generator step","python/xoscar/core.pyx:_run_actor_async_generator")],
 [("_lock","per-actor asyncio lock","python/xoscar/core.pyx:_BaseActor")],
 ["enter/exit events recorded by method bodies"])
p("P03","Messages from one caller to one actor are processed in the order issued",
 "When one caller issues messages to one actor such that each is issued after the previous one was accepted (a tell's or call's await returned), the actor starts them in that issue order as long as the caller's connection to that actor's process lives. Calls that one process issues concurrently (without awaiting in between) over one established connection, with arguments small enough to be serialized without yielding, are likewise started in program order. This holds for same-host and remote actors and is not affected by other callers' traffic, message sizes or transport fragmentation.",
 ["schedules","histories"],"All network delays, fragmentations, message-size mixes and competing traffic.",
 "Tests never compare processing order under delay, back-pressure or mixed message sizes.",
 [B+"communication/socket.py",B+"communication/utils.py",B+"pool.py",B+"core.py",B+"communication/dummy.py","python/xoscar/serialization/aio.py"],
 [("messages of a channel received and dispatched in order",B+"pool.py:on_new_channel"),("tell awaits acceptance",B+"pool.py:ActorPoolBase.tell"),("FIFO actor lock","python/xoscar/core.pyx")],
 [],["sequence numbers recorded by the actor"])
p("P04","Remote exceptions reach exactly the caller, with their type and message",
 "If an actor method, constructor or lifecycle hook raises, the caller of that operation receives an exception that is an instance of the original type and carries its arguments or message, and no other call is affected. If a call's arguments, result or exception cannot be serialized, or cannot be rebuilt on the receiving side, that call alone fails with an error within bounded time instead of hanging, and other calls sharing the connection still complete normally.",
 ["inputs","schedules","histories"],"All exception kinds (including unpicklable ones, BaseExceptions that user code may raise, deep chains) and payloads that fail to serialize or deserialize, interleaved with healthy calls on the same connection.",
 "Tests raise one simple error at a time on an idle connection; isolation from concurrent in-flight calls and the two-sided serialization failures are untested.",
 [B+"pool.py",B+"core.py",B+"message.pyx","python/xoscar/serialization/exception.py","python/xoscar/serialization/core.pyx"],
 [("error captured into an error message",B+"pool.py:_ErrorProcessor"),("resend of send failures",B+"pool.py:_send_channel"),("deserialize failure routed by message id",B+"core.py:_listen, "+B+"message.pyx")],
 [],["exception raised at the caller"])
p("P05","No call hangs forever: every call ends when its peer or connection is gone",
 "Every pending actor call, actor creation, destruction, lookup or control operation completes - with its result or with an exception - within bounded time after the target process dies, its pool stops or the connection is lost, and once the fault is over new calls to live pools succeed again. A fault on one connection or one pool never stalls or fails calls that go to other, healthy pools.",
 ["fault_sequences","crash_points","schedules"],"Process kill, pool stop, connection reset, refused or silent connect and partition-then-heal at every point of every call.",
 "Tests kill one process at one quiet moment; a reply future that is never completed only shows for particular crash points, in-flight mixes and cancellations.",
 [B+"core.py",B+"pool.py",B+"router.py",B+"communication/socket.py",B+"communication/dummy.py",B+"context.py"],
 [("all pending futures failed when the listener sees EOF or error",B+"core.py:_listen"),("closed clients evicted from the cache",B+"router.py:get_client"),("connect timeout",B+"communication/socket.py:SocketClient.connect")],
 [("_client_to_message_futures","pending calls per client",B+"core.py")],["completion of awaited operations against simulated time"])
p("P06","Cancelling a call cancels it remotely, ends it, and affects nothing else",
 "When a pending call is cancelled, the cancellation reaches the running remote method (which observes a cancellation at its await point) and the caller's await ends within bounded time, with a cancellation or with the result if the method had already finished. The actor's lock is released, the actor keeps serving, and no other call - on the same actor, connection or process - is cancelled, lost or given a wrong answer.",
 ["schedules","histories"],"Cancellation at every instant: before sending, while queued on the lock, while running, while the reply is in flight, after completion, repeatedly, through local, direct and relayed paths.",
 "Tests cancel a sleeping call once; the races between reply, cancel request and lock hand-over are schedule dependent.",
 [B+"context.py",B+"pool.py",B+"core.py","python/xoscar/core.pyx"],
 [("shielded wait sends a cancel message",B+"context.py:IndigenActorContext._wait"),("cancel looks up the running task by message id",B+"pool.py:cancel/_run_coro")],
 [("_process_messages","message id to running task",B+"pool.py")],["CancelledError observed in the method and at the caller","effects on other calls"])
p("P07","Actor registry behaves as one consistent map from uid to live actor",
 "Within each member process of a pool, concurrent create, exists, look-up and destroy operations on the same uid behave as some sequential order of them: at most one live actor per uid, creating an existing uid there fails, a created actor is found (asking the main or its own process) and answers calls until destroyed, and a destroyed one is not found by any process. Each successful create runs the creation hook once and each successful destroy runs the destruction hook once; a create that fails, or whose hook fails, leaves nothing behind and the uid can be used again.",
 ["schedules","histories"],"All interleavings of lifecycle operations from several clients via main and sub processes, with failing and slow hooks.",
 "Tests run lifecycle operations one after another; overlapping operations and failing hooks against main/sub bookkeeping are not sampled.",
 [B+"pool.py",B+"context.py","python/xoscar/core.pyx"],
 [("per-process actor table",B+"pool.py:ActorPoolBase.create_actor/destroy_actor"),("main process allocation table and sub-to-main notification",B+"pool.py:MainActorPoolBase/SubActorPoolBase")],
 [("_actors","uid to actor in one process",B+"pool.py"),("_allocated_actors","address to actors known by the main process",B+"pool.py")],["results of create_actor/has_actor/actor_ref/destroy_actor and hook executions"])
p("P08","Placement strategies put actors only where they promise, without double booking",
 "An actor created with a placement strategy lives in a process that satisfies it: the given address, the main process, a sub process, the given process index, or a process carrying the label. For idle-slot placement, two live actors created with the same label and mark never share a process even when created concurrently; creation fails with a no-idle-slot error only when every labelled process is taken, and a slot is free again after its actor is destroyed or its creation failed or was cancelled.",
 ["schedules","histories"],"All interleavings of concurrent creations, failures, cancellations and destructions under every strategy, pool shape and label layout.",
 "Tests create actors sequentially; the reservation made while a creation is in flight is only exercised by overlapping ones.",
 [B+"allocate_strategy.py",B+"pool.py",B+"config.py"],
 [("strategy evaluated under lock, placeholder reserves the slot",B+"pool.py:MainActorPoolBase.create_actor"),("idle search over allocations",B+"allocate_strategy.py:IdleLabel")],
 [("_allocated_actors","address to (strategy, creation message)",B+"pool.py")],["address of created references","NoIdleSlot errors"])
p("P09","A crashed worker process is replaced and its actors restored as configured",
 "With auto recovery on, a sub process that dies at any moment is replaced at the same address within bounded time; in actor mode every actor that had been created there and not destroyed is created again with its original arguments and is usable, while in process mode none is, and with recovery off the process stays down. Actors and calls in other processes are unaffected, waiting for recovery returns only once the process and its actors are usable again, and the down and recovery callbacks fire once per failure.",
 ["crash_points","fault_sequences","schedules"],"Crash of any sub process at any point, including during creations, during another recovery, repeatedly, and concurrently with calls and destructions.",
 "Tests kill one idle process once; crashes during recovery, creation or destruction are not reachable by tests.",
 [B+"pool.py",B+"indigen/pool.py",B+"context.py"],
 [("monitor loop",B+"pool.py:monitor_sub_pools"),("restart and re-creation",B+"indigen/pool.py:recover_sub_pool"),("recover events",B+"pool.py:wait_pool_recovered")],
 [("_allocated_actors","what to re-create",B+"pool.py"),("_recover_events","waiters",B+"pool.py")],["has_actor, calls, wait_actor_pool_recovered and callbacks after a kill"])
p("P10","Stopping or losing a pool leaves no process behind",
 "After a pool has been stopped, all of its sub processes have ended within bounded time, even when one is hung, stalled, busy or dead already, and stopping terminates normally. If the main process dies at any instant - even while a sub process is still starting - every sub process ends within bounded time, and failed pool start-up leaves no process and no shared memory behind. Once a pool has been stopped or its start-up has failed, a pool can be started at its address again.",
 ["crash_points","fault_sequences","schedules"],"Stop and kill at every instant of pool start-up, steady state, recovery and shutdown, with hung or stalled sub processes and with kernel parent-death signals present or missing.",
 "Tests stop healthy idle pools; the orphan cases need a crash at a specific point of start-up, recovery or shutdown.",
 [B+"indigen/pool.py",B+"indigen/fate_sharing.py",B+"pool.py"],
 [("graceful stop then terminate then kill",B+"pool.py:stop_sub_pool, "+B+"indigen/pool.py:kill_sub_pool"),("parent death signal",B+"indigen/fate_sharing.py"),("watching the main process",B+"pool.py:_watch_main_pool, "+B+"indigen/pool.py:_check_ppid")],
 [("sub_processes","running sub processes",B+"pool.py")],["process table"])
p("P11","A timed wait on an actor call always ends on time",
 "Waiting for an actor call with a timeout returns the call's result or raises its exception if it finishes in time, and otherwise raises a timeout at the deadline, even if the target process is hung, stalled, partitioned away or never answers the cancellation. The timed-out call is cancelled on a target that is reachable, and a wait that succeeds never raises a timeout.",
 ["schedules","fault_sequences"],"All relative timings of completion, deadline, cancellation delivery and remote stalls.",
 "The test uses one hung actor and one timeout value; the completion/deadline races and partitions are not sampled.",
 ["python/xoscar/api.py",B+"context.py"],
 [("detached future with timeout","python/xoscar/api.py:wait_for"),("cancel message",B+"context.py:_wait")],[],["return time and outcome of wait_for"])
p("P12","Buffer and file copies arrive complete and unmixed",
 "When a copy between local buffers or files and remote buffers or files returns successfully, every remote target holds exactly the source bytes, for any number and size of buffers, any block size and any concurrent copies or calls. A copy interrupted by a fault raises an error rather than reporting success, and bytes outside the targets are never modified.",
 ["inputs","schedules","fault_sequences"],"All size mixes and block sizes including boundaries and empty buffers, concurrent copies, connection faults and file I/O errors or short reads mid-copy.",
 "Tests copy a few fixed sizes once without concurrency or faults.",
 [B+"context.py",B+"pool.py","python/xoscar/core.pyx","python/xoscar/aio/base.py","python/xoscar/context.pyx"],
 [("block splitting and accumulation",B+"context.py:copy_to_buffers/copy_to_fileobjs"),("in-place write at the receiver",B+"pool.py:handle_copy_to_buffers_message/handle_copy_to_fileobjs_message")],[],["remote content after copy_to"])
p("P13","Remote generators yield the exact sequence once, then end cleanly",
 "Iterating a generator returned by an actor yields exactly the values the generator produces, in order and without loss or duplication, then ends; an error raised inside it reaches the consumer with its type after the preceding values. Independent and concurrent iterations do not disturb each other or the actor, and exhausted, failed or abandoned generators are released on the actor.",
 ["schedules","fault_sequences","histories"],"Sync and async generators of any length consumed by concurrent local and remote consumers, abandoned or passed between processes at any point, with delays and connection faults.",
 "Tests iterate short generators sequentially.",
 ["python/xoscar/api.py"],
 [("next and destroy calls by generator id","python/xoscar/api.py:IteratorWrapper/AsyncActorMixin"),("generator decorator","python/xoscar/api.py:generator")],
 [("_generators","live generators of an actor","python/xoscar/api.py")],["values seen by async for"])
p("P14","A batch call gives what the individual calls would give, in order",
 "Calling a method in batch returns one result per delayed call, in the given order, each equal to what the individual call would return, whether the method has a dedicated batch implementation or not and whether it is sync or async, local or remote; an error in one member fails the batch with that error. A batch is executed under one lock acquisition and its members run exactly once.",
 ["inputs","schedules","histories"],"All batch sizes (including empty and single), argument shapes, implementation kinds, concurrent batches, failures and cancellations.",
 "Tests call fixed small batches sequentially in one process.",
 ["python/xoscar/batch.py","python/xoscar/core.pyx"],
 [("batch dispatch","python/xoscar/core.pyx:__on_receive__/ActorRefMethod.batch"),("extensible wrapper","python/xoscar/batch.py")],[],["results of batch and executions recorded by the actor"])
p("P15","Delayed messages are delivered once, never early",
 "A message sent with a delay starts executing on its actor no earlier than the requested delay after the request and, if the actor is reachable then, exactly once within bounded time after it. Cancelling the returned task before it is due prevents delivery, and a delayed message to a vanished pool does not disturb anything else.",
 ["schedules","fault_sequences"],"All delays, timer orders, cancellations, stalls, clock jumps and faults around the due time.",
 "The test uses one real sleep with a fixed delay.",
 ["python/xoscar/core.pyx"],
 [("sleep then tell","python/xoscar/core.pyx:ActorRefMethod.tell_delay/LocalActorRefMethod.tell_delay")],[],["execution times recorded by the actor"])
p("P16","Calls through proxies behave like direct calls",
 "With any acyclic proxy configuration (per address, per host or wildcard, one or several hops), every operation on an actor - look-up, call, tell, error, cancellation, creation, destruction - reaches the intended pool and gives the outcome a direct connection would give. A pool that is configured to be reached by proxy is not contacted directly, and failure of a hop surfaces as an error for the affected calls only.",
 ["configurations","schedules","fault_sequences"],"All acyclic proxy maps over several pools, concurrent traffic, hop failures and cancellations.",
 "Tests use one fixed chain with a few sequential calls.",
 [B+"router.py",B+"pool.py",B+"core.py",B+"context.py"],
 [("proxy selection",B+"router.py:get_client/get_proxy/get_proxies"),("forward message",B+"pool.py:forward, "+B+"core.py:call")],[],["outcomes at the client and connections opened"])
p("P17","Dynamically added and removed worker processes form a consistent pool",
 "A sub process added at run time becomes usable by every member and client as soon as adding returns: actors can be placed on it, found and called from anywhere, and it is monitored and stopped with the pool. After removal returns its process is gone, the pool's configuration no longer lists it in any member, nothing new is placed there and it is not resurrected; concurrent additions, removals, calls and failures leave the other members intact.",
 ["schedules","histories","fault_sequences"],"All interleavings of additions, removals, creations, calls and crashes.",
 "Tests add and remove one process sequentially.",
 [B+"indigen/pool.py",B+"pool.py",B+"config.py",B+"router.py"],
 [("append/remove and config sync",B+"indigen/pool.py:append_sub_pool/remove_sub_pool, "+B+"pool.py:handle_control_command"),("router rebuild",B+"pool.py:_sync_pool_config")],[],["pool configuration, placement, calls and process table"])
p("P18","Killing an actor ends its hosting process and nothing else",
 "Killing an actor that lives in a sub process terminates exactly that process within bounded time, even when the actor never returns from a call (and, when the kill is addressed through the main process, even when the hosting process is stalled), and pending calls to it end with an error; the pool then applies its recovery policy. Killing an actor of the main process is refused, and actors in other processes and other pools are not affected.",
 ["schedules","fault_sequences"],"Kills issued at any instant against idle, busy, hung or stalled actors, concurrently with calls, recovery and other kills.",
 "Tests kill one busy actor once and look at one outcome.",
 [B+"context.py",B+"pool.py",B+"indigen/pool.py"],
 [("stop control message with force",B+"context.py:kill_actor, "+B+"pool.py:handle_control_command"),("process termination",B+"indigen/pool.py:kill_sub_pool")],[],["process table, pending calls and later calls"])
p("P19","Messages survive any segmentation, and bad bytes harm only their connection",
 "Messages of any size and buffer structure are delivered intact whatever way the byte stream is split, delayed or throttled, also when many are sent concurrently over one connection and with compression on or off. A connection that is truncated, reset or fed malformed bytes never delivers a corrupted or partial message to a caller or an actor; it is closed and the server keeps serving every other connection and accepting new ones.",
 ["inputs","fault_sequences","schedules"],"All segmentations, window sizes, concurrent senders, payload shapes, truncation points and malformed prefixes.",
 "Loopback tests deliver whole messages at once and never see partial frames, back-pressure or garbage.",
 ["python/xoscar/serialization/aio.py",B+"communication/utils.py",B+"communication/socket.py",B+"communication/base.py",B+"pool.py"],
 [("length-prefixed header and exact reads","python/xoscar/serialization/aio.py"),("buffer writes without interleaving, drain under lock",B+"communication/socket.py:SocketChannel.send/recv, "+B+"communication/utils.py")],[],["payloads received, connections served"])
p("P20","Yielding methods get their awaited results back and keep the actor responsive",
 "An actor method that yields awaitables, or returns a tuple of awaitables or async generators, receives for each yield the awaited result (or has the awaited exception raised at the yield) and finally returns its value or tuple in position, while other calls can run on the actor between its yields. Cancelling such a call cancels all of its outstanding parts, and nested or concurrent yielding calls on the same actors neither mix their values nor deadlock.",
 ["programs","schedules","histories"],"All mixes of yields, nested calls, tuples, exceptions and cancellations across several actors and processes.",
 "Tests run a few fixed promise scripts; the interleavings of concurrent and cancelled ones are not covered.",
 ["python/xoscar/core.pyx"],
 [("result handling and generator driver","python/xoscar/core.pyx:_handle_actor_result/_run_actor_async_generator")],[],["values observed by the method and by the caller"])
p("P21","The async cache computes once per key and isolates its callers",
 "Concurrent calls to a cached coroutine with the same key while it is running share one execution and all get its outcome, and calls within the size limit after success reuse it; different keys are never mixed. Cancelling one caller does not cancel or fail the other callers or the shared execution, and failed computations are kept or retried according to the exception-caching option.",
 ["schedules","histories"],"All interleavings of callers, completions, failures, cancellations, evictions and invalidations.",
 "There is no test of concurrent callers or cancellation for the cache.",
 ["python/xoscar/aio/lru.py"],
 [("shared future behind shield","python/xoscar/aio/lru.py:alru_cache")],[],["results and number of executions"])
p("P22","Values survive serialization unchanged",
 "Any supported value (nested containers, bytes, numpy and scipy arrays, pandas objects, exceptions, actor references, enums, arbitrary picklable objects) sent through the serializer is rebuilt equal to the original, independent of nesting depth and sharing.",
 ["inputs"],"All values of the supported types.","Tests use a fixed list of values.",
 ["python/xoscar/serialization/core.pyx"],[("serializers","python/xoscar/serialization/")],[],["deserialize(serialize(x))"])
p("P23","Collective operations give every rank the mathematically defined result",
 "Every collective operation among the members of a process group (reduce, broadcast, gather, scatter, all-reduce, all-to-all) terminates on all ranks with the defined result for any rank count, data and arrival order.",
 ["inputs","schedules"],"All ranks, data and arrival orders.","Tests run fixed small groups.",
 ["python/xoscar/collective/core.py","python/xoscar/collective/process_group.py"],[("process groups","python/xoscar/collective/process_group.py")],[],["buffers after each collective"])
p("P24","Virtual environments install exactly the packages whose markers apply",
 "Preparing a virtual environment installs exactly the given packages whose environment markers and system placeholders evaluate true for this interpreter and skips already satisfied ones when asked.",
 ["inputs","configurations"],"All package lists, markers and settings.","Tests evaluate a fixed set of specs.",
 ["python/xoscar/virtualenv/core.py","python/xoscar/virtualenv/uv.py"],[("package processing","python/xoscar/virtualenv/core.py")],[],["command lines handed to the installer"])
p("P25","Finished calls leave nothing behind",
 "In a long-lived process with a pool nothing of a call outlives it: when a call has ended - with a result, an error, cancelled, or lost with a broken connection - and its connection has since carried other traffic or been replaced, neither the caller's process nor the actor's process keeps its arguments, result or error alive. The number of connections between two processes does not grow with the number of calls made or connections lost.",
 ["histories","fault_sequences","schedules"],"All sequences of calls of every kind with results, errors, cancellations, unpicklable values, connection resets and process deaths.",
 "Tests make a few calls and look at results only; what is retained shows up after particular failures, and as slow growth.",
 [B+"core.py",B+"pool.py",B+"context.pyx",B+"router.py","python/xoscar/core.pyx"],
 [("futures per message",B+"core.py:ActorCaller"),("running messages",B+"pool.py:_run_coro"),("cached clients",B+"router.py:Router")],
 [("_client_to_message_futures, _clients","pending calls and connections",B+"core.py"),("_process_messages","running calls",B+"pool.py")],
 ["weak references to values that calls carried, after a garbage collection","open connections"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
