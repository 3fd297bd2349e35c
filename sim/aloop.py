"""asyncio event loops on the simulated kernel.

The loop is CPython's own _UnixSelectorEventLoop with a fake selector and fake sockets
below it, so transports, streams, servers, timers and tasks are the real ones. One loop
callback is one step of the simulated thread; everything between two callbacks may be
interleaved with other threads, and the process may die there.
"""
import asyncio
import concurrent.futures
import heapq
import selectors
import socket as _rsock
import threading
import weakref
from asyncio import base_events, coroutines, events, futures, tasks, unix_events

from . import kernel
from .kernel import SEC, US

EVENT_READ, EVENT_WRITE = selectors.EVENT_READ, selectors.EVENT_WRITE


class SimTask(asyncio.Task):
    _n = 0

    def __init__(self, *a, **kw):
        SimTask._n += 1
        self._simh = SimTask._n
        self._simp = kernel.K.ctx_proc if kernel.K is not None else None
        super().__init__(*a, **kw)

    def __hash__(self):
        return self._simh


class SimFuture(asyncio.Future):
    def __init__(self, *a, **kw):
        SimTask._n += 1
        self._simh = SimTask._n
        super().__init__(*a, **kw)

    def __hash__(self):
        return self._simh


def _task_factory(loop, coro, context=None):
    return SimTask(coro, loop=loop, context=context)


class FakeSelector(selectors.BaseSelector):
    def __init__(self):
        self.map = {}
        self.loop = None

    def _fd(self, fileobj):
        return fileobj if isinstance(fileobj, int) else fileobj.fileno()

    def _sock(self, fd):
        return kernel.K.ctx_proc.sockets.get(fd)

    def register(self, fileobj, ev, data=None):
        fd = self._fd(fileobj)
        if fd in self.map:
            raise KeyError(f"{fileobj!r} (FD {fd}) is already registered")
        key = selectors.SelectorKey(fileobj, fd, ev, data)
        s = self._sock(fd)
        if s is None:
            raise ValueError(f"bad fd {fd}")
        self.map[fd] = key
        s.selectors.append(self)
        return key

    def unregister(self, fileobj):
        fd = self._fd(fileobj)
        key = self.map.pop(fd)
        s = self._sock(fd)
        if s is not None and self in s.selectors:
            s.selectors.remove(self)
        return key

    def modify(self, fileobj, ev, data=None):
        fd = self._fd(fileobj)
        if fd not in self.map:
            raise KeyError(fileobj)
        key = self.map[fd] = selectors.SelectorKey(fileobj, fd, ev, data)
        return key

    def get_map(self):
        return self.map

    def get_key(self, fileobj):
        return self.map[self._fd(fileobj)]

    def ready(self):
        socks = kernel.K.ctx_proc.sockets
        for fd, key in self.map.items():
            s = socks.get(fd)
            if s is not None and ((key.events & EVENT_READ and s.readable())
                                  or (key.events & EVENT_WRITE and s.writable())):
                return True
        return False

    def select(self, timeout=None):
        socks = kernel.K.ctx_proc.sockets
        out = []
        for fd, key in self.map.items():
            s = socks.get(fd)
            if s is None:
                continue
            ev = 0
            if key.events & EVENT_READ and s.readable():
                ev |= EVENT_READ
            if key.events & EVENT_WRITE and s.writable():
                ev |= EVENT_WRITE
            if ev:
                out.append((key, ev))
        if len(out) > 1:
            kernel.K.rng.shuffle(out)  # epoll promises no order
        return out

    def close(self):
        for fd in list(self.map):
            self.unregister(fd)


class SimExecutor(concurrent.futures.Executor):
    """A thread pool with ThreadPoolExecutor's behaviour on simulated threads."""

    def __init__(self, max_workers=12, *a, **kw):
        self.k = kernel.K
        self.proc = kernel.K.ctx_proc
        self.max = max_workers or 12
        self.queue = []
        self.idle = []
        self.nworkers = 0
        self.active = 0
        self.closed = False
        self.waiters = []
        self.proc.executors.append(self)

    def submit(self, fn, /, *args, **kw):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = concurrent.futures.Future()
        job = (f, fn, args, kw)
        k = self.k
        self.queue.append(job)
        lat = int(5 * US + k.rng.random() * 100 * US)
        if k.knobs.get("exec_delay_p") and k.rng.random() < k.knobs["exec_delay_p"]:
            lat += int(k.rng.random() * k.knobs.get("exec_delay_ms", 20) * kernel.MS)
            k.counters["executor delay"] += 1
        if self.idle:
            k.wake(self.idle.pop(), lat)
        elif self.nworkers < self.max:
            self.nworkers += 1
            k.new_thread(self.proc, self._work, "exec", delay=lat)
        return f

    def _work(self):
        k = self.k
        me = k.cur
        while True:
            while not self.queue:
                if self.closed:
                    self.nworkers -= 1
                    self._check()
                    return
                self.idle.append(me)
                k.block()
                if me in self.idle:
                    self.idle.remove(me)
            f, fn, args, kw = self.queue.pop(0)
            if f.set_running_or_notify_cancel():
                self.active += 1
                k.step()
                try:
                    r = fn(*args, **kw)
                except BaseException as e:
                    f.set_exception(e)
                    e = None
                else:
                    f.set_result(r)
                    r = None
                self.active -= 1
            f = fn = args = kw = None

    def _check(self):
        if self.closed and self.nworkers == 0:
            for w in self.waiters:
                w()
            self.waiters = []

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for j in self.queue:
                j[0].cancel()
            self.queue = []
        for th in self.idle:
            self.k.wake(th)
        self.idle = []
        if wait and self.nworkers:
            me = self.k.cur
            while self.nworkers:
                self.waiters.append(lambda: self.k.wake(me))
                self.k.block()


class SimLoop(unix_events._UnixSelectorEventLoop):
    def __init__(self):
        self.k = kernel.K
        self.proc = self.k.ctx_proc
        sel = FakeSelector()
        sel.loop = self
        super().__init__(sel)
        self._clock_resolution = 1e-9
        self._waiter_th = None
        self._sim_executor = None
        self._exec_shutdown = False
        self.set_task_factory(_task_factory)
        self._asyncgens = _OrderedWeakSet()

    # self-pipe
    def _make_self_pipe(self):
        pass

    def _close_self_pipe(self):
        pass

    def _write_to_self(self):
        self.kick()

    def kick(self):
        th = self._waiter_th
        if th is not None:
            self.k.wake(th, 1 * US + int(self.k.rng.random() * 30 * US))

    def time(self):
        return self.proc.host.mono0 + self.k.now * 1e-9

    def create_future(self):
        return SimFuture(loop=self)

    def _run_once(self):
        k = self.k
        sched_count = len(self._scheduled)
        if sched_count > 100 and self._timer_cancelled_count / sched_count > 0.5:
            new = []
            for h in self._scheduled:
                if h._cancelled:
                    h._scheduled = False
                else:
                    new.append(h)
            heapq.heapify(new)
            self._scheduled = new
            self._timer_cancelled_count = 0
        else:
            while self._scheduled and self._scheduled[0]._cancelled:
                self._timer_cancelled_count -= 1
                h = heapq.heappop(self._scheduled)
                h._scheduled = False
        timeout = None
        if self._ready or self._stopping:
            timeout = 0
        elif self._scheduled:
            timeout = max(0, self._scheduled[0]._when - self.time())
        sel = self._selector
        if timeout != 0 and not sel.ready():
            self._waiter_th = k.cur
            k.block(None if timeout is None else min(int(timeout * 1e9) + 2, 86400 * SEC))
            self._waiter_th = None
        event_list = sel.select(0)
        self._process_events(event_list)
        event_list = None
        end = self.time() + self._clock_resolution
        while self._scheduled:
            h = self._scheduled[0]
            if h._when >= end:
                break
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._ready.append(h)
        for _ in range(len(self._ready)):
            h = self._ready.popleft()
            if h._cancelled:
                continue
            k.step()
            h._run()
        h = None

    # executors
    def _get_exec(self):
        if self._exec_shutdown:
            raise RuntimeError("Executor shutdown has been called")
        if self._sim_executor is None:
            self._sim_executor = SimExecutor()
        return self._sim_executor

    def run_in_executor(self, executor, func, *args):
        self._check_closed()
        if executor is None:
            executor = self._get_exec()
        return futures.wrap_future(executor.submit(func, *args), loop=self)

    async def shutdown_default_executor(self, timeout=None):
        self._exec_shutdown = True
        ex = self._sim_executor
        if ex is None:
            return
        ex.shutdown(wait=False)
        if ex.nworkers:
            fut = self.create_future()
            ex.waiters.append(
                lambda: self.call_soon_threadsafe(futures._set_result_unless_cancelled, fut, None))
            try:
                async with asyncio.timeout(timeout):
                    await fut
            except TimeoutError:
                pass

    def close(self):
        super().close()
        if self._sim_executor is not None:
            self._sim_executor.shutdown(wait=False)

    async def getaddrinfo(self, host, port, *, family=0, type=0, proto=0, flags=0):
        await asyncio.sleep(self.k.nrng.random() * 0.002)
        if host == "localhost":
            ip = "127.0.0.1"
        else:
            for h in self.k.hosts.values():
                if h.name == host:
                    ip = h.ip
                    break
            else:
                raise _rsock.gaierror(_rsock.EAI_NONAME, "Name or service not known")
        return [(_rsock.AF_INET, _rsock.SOCK_STREAM, 6, "", (ip, port or 0))]

    def default_exception_handler(self, context):
        k = self.k
        e = context.get("exception")
        k.counters["loop exception"] += 1
        if k.knobs.get("verbose"):
            import sys
            import traceback
            print(f"[{k.now/1e9:.6f}] {self.proc} loop exception: {context.get('message')}",
                  file=sys.stderr)
            if e is not None:
                traceback.print_exception(e)


class _OrderedWeakSet:
    def __init__(self):
        self.d = {}

    def add(self, o):
        i = id(o)
        self.d[i] = weakref.ref(o, lambda _: self.d.pop(i, None))

    def discard(self, o):
        self.d.pop(id(o), None)

    def __iter__(self):
        for r in list(self.d.values()):
            o = r()
            if o is not None:
                yield o

    def __len__(self):
        return len(self.d)

    def clear(self):
        self.d.clear()


class SimWatcher:
    """Child watcher: the kernel tells the loop when the child is reaped."""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def is_active(self):
        return True

    def attach_loop(self, loop):
        pass

    def close(self):
        pass

    def add_child_handler(self, pid, callback, *args):
        k = kernel.K
        p = k.procs[pid]
        parent = k.ctx_proc

        def reaped(_):
            if parent.dead:
                return
            k._reap(p)
            loop = callback.__self__
            if loop.is_closed():
                return
            # waitpid in the loop of the parent, as the pidfd watcher does
            prev = k.ctx_proc
            k.ctx_proc = parent  # only bookkeeping: no user code runs here
            try:
                loop.call_soon_threadsafe(callback, pid, p.exitcode, *args)
            finally:
                k.ctx_proc = prev

        if p.dead:
            k.after(20 * US, reaped, p)
        else:
            p.watchers.append(reaped)

    def remove_child_handler(self, pid):
        return False


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    def __init__(self):
        super().__init__()
        self._w = SimWatcher()

    def new_event_loop(self):
        return SimLoop()

    def get_child_watcher(self):
        return self._w

    def set_child_watcher(self, w):
        pass
