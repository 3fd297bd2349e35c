"""Discrete-event kernel: virtual time, simulated threads and processes, one baton.

Every simulated thread is a real thread, but only the holder of the baton runs. A thread
that blocks (or yields) becomes the scheduler: it pops the next event off one heap, which
is ordered by (virtual time, sequence number), and either runs it inline (a kernel event:
packet delivery, fault, timer) or hands the baton to the thread the event belongs to. All
choices come from random streams seeded by the plan, so a run is a function of the plan
and of the code under test.
"""
import _thread
import heapq
import os as _os
import random as _random
import sys
import traceback
from collections import Counter

from . import images

US = 1000
MS = 1000 * US
SEC = 1000 * MS

_real_exit = _os._exit
_alloc = _thread.allocate_lock
_heappush, _heappop = heapq.heappush, heapq.heappop

K = None  # the kernel of this (forked) run


class SimCrash(BaseException):
    """Raised inside a simulated thread to unwind it (never used for kills)."""


class Host:
    def __init__(self, k, name, ip):
        self.k, self.name, self.ip = k, name, ip
        self.mono0 = 1000.0
        self.wall0 = 1_700_000_000.0
        self.fs = {}  # virtual paths: dirs and unix sockets
        self.procs = {}
        self.next_port = 32768
        self.listeners = {}  # port -> FakeSocket
        self.shm = {}

    def __repr__(self):
        return f"<host {self.name}>"


class SimThread:
    __slots__ = ("idx", "proc", "fn", "lk", "gen", "started", "done", "joiners", "name",
                 "daemon", "pyobj", "locals", "main", "waiting")

    def __init__(self, idx, proc, fn, name, daemon):
        self.idx, self.proc, self.fn, self.name, self.daemon = idx, proc, fn, name, daemon
        self.lk = _alloc()
        self.lk.acquire()
        self.gen = 0
        self.started = self.done = self.main = False
        self.joiners = []
        self.pyobj = None
        self.locals = {}
        self.waiting = None

    def __hash__(self):
        return self.idx

    def __repr__(self):
        return f"<thread {self.idx} {self.name} of {self.proc}>"


class Proc:
    def __init__(self, k, pid, host, role, parent=None, env=None):
        self.k, self.pid, self.host, self.role, self.parent = k, pid, host, role, parent
        self.env = env if env is not None else {}
        self.image = None
        self.dead = False  # threads never run again
        self.reaped = False
        self.stopped = False
        self.deferred = []
        self.pending_sigs = []
        self.exitcode = None
        self.children = []
        self.threads = []
        self.nlive = 0
        self.sockets = {}
        self.listened = []
        self.watchers = []
        self.pdeathsig = None
        self.atexit = []
        self.executors = []
        self.born = k.now
        self.died = None
        self.cause = None
        self.main_thread = None
        self.exit_waiters = []
        self.sigmask = set()

    @property
    def alive(self):
        return not self.dead

    def __repr__(self):
        return f"<{self.role} pid {self.pid}>"


class Kernel:
    def __init__(self, seed, knobs):
        self.knobs = knobs
        self.now = 0
        self.seq = 0
        self.heap = []
        self.nevents = 0
        self.h = 0x9E3779B9
        self.rng = _random.Random(seed * 4 + 0)  # scheduling
        self.nrng = _random.Random(seed * 4 + 1)  # network
        self.orng = _random.Random(seed * 4 + 2)  # operating system, ids
        self.frng = _random.Random(seed * 4 + 3)  # faults
        self.cur = None
        self.ctx_proc = None
        self.procs = {}
        self.hosts = {}
        self.threads = []
        self.counters = Counter()
        self.max_events = knobs.get("max_events", 400_000)
        self.max_time = int(knobs.get("max_time", 600) * SEC)
        self.on_finish = None
        self.finishing = False
        self.trace = None  # list of event tags when tracing is on
        self.history = []
        self.thread_errors = []
        self.idle_real = []
        self.next_pid = self.orng.randrange(300, 30000)
        self.harness_lives = 0
        self.exec_trace = knobs.get("trace")
        self.stall_p = knobs.get("stall_p", 0.0)
        self.stall_max = int(knobs.get("stall_max_ms", 50) * MS)
        self.cost_max = int(knobs.get("cost_us", 20) * US)
        self.syscall_hook = None

    # ------------------------------------------------------------------ events
    def push(self, t, obj, arg):
        self.seq += 1
        _heappush(self.heap, (t, self.seq, obj, arg))

    def after(self, dt, fn, *args):
        self.push(self.now + int(dt), fn, args)

    def wake(self, th, dt=0):
        self.push(self.now + int(dt), th, th.gen)

    def _enter(self, th):
        self.cur = th
        p = th.proc
        if p is not self.ctx_proc:
            self._ctx(p)

    def _ctx(self, p):
        self.ctx_proc = p
        _os.environ._data = p.env
        images.activate(p.image)

    def _dispatch(self, me):
        """Run events until `me` is due; with me=None, until the baton is handed over."""
        heap = self.heap
        while True:
            if not heap:
                self.finish("quiescent")
            t, seq, obj, arg = _heappop(heap)
            if t > self.now:
                self.now = t
                if t > self.max_time:
                    self.finish("time limit")
            if type(obj) is SimThread:
                if arg != obj.gen:
                    continue
                p = obj.proc
                if p.dead:
                    continue
                if p.stopped:
                    p.deferred.append((obj, arg))
                    continue
                self.nevents += 1
                self.h = hash((self.h, t, obj.idx))
                if self.trace is not None:
                    self.trace.append((t, obj.idx))
                if self.nevents > self.max_events:
                    self.finish("event limit")
                obj.gen += 1
                if obj is me:
                    self._enter(me)
                    return
                if obj.started:
                    obj.lk.release()
                else:
                    obj.started = True
                    if self.idle_real:
                        slot = self.idle_real.pop()
                        slot[1] = obj
                        slot[0].release()
                    else:
                        _thread.start_new_thread(self._real_thread, (obj,))
                if me is None:
                    return
                me.lk.acquire()
                self._enter(me)
                return
            self.nevents += 1
            self.h = hash((self.h, t, -7))
            if self.trace is not None:
                self.trace.append((t, getattr(obj, "__name__", "?")))
            self.cur = None
            try:
                obj(*arg)
            except BaseException:
                self.fatal(traceback.format_exc())

    def _real_thread(self, th):
        slot = [_alloc(), None]
        slot[0].acquire()
        while True:
            self._boot(th)
            # the baton goes on; this real thread then waits to host another sim thread
            self.idle_real.append(slot)
            self._dispatch(None)
            slot[0].acquire()
            th = slot[1]

    def _boot(self, th):
        self._enter(th)
        code = 0
        try:
            th.fn()
        except SystemExit as e:
            if e.code is None:
                code = 0
            elif isinstance(e.code, int):
                code = e.code
            else:
                code = 1
        except SimCrash:
            code = 1
        except BaseException as e:
            code = 1
            self.thread_errors.append(
                (self.now, th.proc.pid, th.name,
                 "".join(traceback.format_exception_only(type(e), e)).strip()))
            if self.knobs.get("verbose"):
                traceback.print_exc()
            e = None
        self.thread_exit(th, code)

    def thread_exit(self, th, code=0):
        th.fn = None
        while th.locals:
            _, d = th.locals.popitem()
            d.clear()
            d = None
        th.done = True
        p = th.proc
        p.nlive -= 1
        for j in th.joiners:
            self.wake(j)
        th.joiners = []
        if th.main and not p.dead:
            self.exit_proc(p, code, "exit")
        self.cur = None

    # ---------------------------------------------------------------- blocking
    def block(self, timeout=None):
        """Block the current thread until woken (or for timeout ns)."""
        me = self.cur
        if timeout is not None:
            self.push(self.now + timeout, me, me.gen)
        self._dispatch(me)

    def step(self):
        """Charge the running thread some CPU time; others may run meanwhile."""
        me = self.cur
        r = self.rng.random()
        dt = 500 + int(self.cost_max * r)
        if self.stall_p and self.rng.random() < self.stall_p:
            dt += int(self.stall_max * self.rng.random() ** 3)
            self.counters["stall"] += 1
        t = self.now + dt
        heap = self.heap
        if heap and heap[0][0] <= t:
            self.push(t, me, me.gen)
            self._dispatch(me)
        else:
            # nothing else can happen before: keep running
            self.now = t
            me.gen += 1
            self.nevents += 1
            self.h = hash((self.h, t, me.idx))
            if self.trace is not None:
                self.trace.append((t, me.idx))
            if self.nevents > self.max_events:
                self.finish("event limit")

    def sleep(self, seconds):
        if self.cur is None:
            raise RuntimeError("sleep outside a simulated thread")
        dt = max(0, int(seconds * SEC))
        # sleeping always oversleeps a little
        self.block(dt + int(self.rng.random() * 60 * US))

    # --------------------------------------------------------------- processes
    def new_pid(self):
        pid = self.next_pid
        while pid in self.procs:
            pid += 1
        self.next_pid = pid + self.orng.randrange(1, 4)
        if self.next_pid > 4_000_000:
            self.next_pid = 300
        return pid

    def new_proc(self, host, role, parent=None, env=None, pid=None):
        p = Proc(self, pid or self.new_pid(), host, role, parent, env)
        self.procs[p.pid] = p
        host.procs[p.pid] = p
        if parent is not None:
            parent.children.append(p)
        return p

    def new_thread(self, proc, fn, name="", daemon=True, delay=0, main=False):
        th = SimThread(len(self.threads), proc, fn, name, daemon)
        self.threads.append(th)
        proc.threads.append(th)
        proc.nlive += 1
        if main:
            th.main = True
            proc.main_thread = th
        self.push(self.now + int(delay), th, th.gen)
        return th

    def exit_proc(self, p, code, cause):
        """The process is gone; the kernel closes what it held."""
        if p.dead:
            return
        p.dead = True
        p.died = self.now
        p.exitcode = code
        p.cause = cause
        p.stopped = False
        p.deferred = []
        self.counters["proc_exit:" + cause] += 1
        self.record("proc_exit", pid=p.pid, role=p.role, code=code, cause=cause)
        for s in list(p.sockets.values()):
            s._kernel_close(dying=True)
        p.sockets.clear()
        for c in list(p.children):
            c.parent = None
            if not c.dead and c.pdeathsig:
                self.after(self.orng.randrange(1, 200) * US, self.signal, c, c.pdeathsig,
                           "pdeathsig")
            if c.dead:
                self._reap(c)
        if p.parent is None or p.parent.dead:
            # init (or the harness shell) reaps
            self.after(self.orng.randrange(50, 3000) * US, self._reap, p)
        else:
            for cb in p.watchers:
                self.after(self.orng.randrange(1, 300) * US, cb, p)
            p.watchers = []
        for th in p.exit_waiters:
            self.wake(th)
        p.exit_waiters = []

    def _reap(self, p):
        if not p.reaped:
            p.reaped = True
            p.host.procs.pop(p.pid, None)

    def signal(self, p, sig, cause="signal"):
        sig = int(sig)
        if p.dead:
            return
        if sig == 0:
            return
        if sig == 9:
            self.exit_proc(p, -9, cause if cause != "signal" else "SIGKILL")
        elif sig == 15:
            if p.stopped:
                p.pending_sigs.append(sig)
            else:
                self.exit_proc(p, -15, cause if cause != "signal" else "SIGTERM")
        elif sig == 19:
            p.stopped = True
        elif sig == 18:
            self.cont(p)

    def cont(self, p):
        if p.dead or not p.stopped:
            return
        p.stopped = False
        for s in p.pending_sigs:
            self.signal(p, s)
            if p.dead:
                return
        d, p.deferred = p.deferred, []
        for th, gen in d:
            self.push(self.now, th, gen)

    def kill_current(self, code, cause="_exit"):
        """The running thread ends its own process: never returns."""
        me = self.cur
        self.exit_proc(me.proc, code, cause)
        self._dispatch(me)
        raise AssertionError("dead thread resumed")

    # ----------------------------------------------------------------- history
    def record(self, _k, **kw):
        kw["k"] = _k
        kw["i"] = len(self.history)
        kw["t"] = self.now
        self.history.append(kw)
        if self.syscall_hook is not None:
            self.syscall_hook(kw)
        return kw["i"]

    def fatal(self, msg):
        """The harness itself is broken: say so, never mistake it for a verdict."""
        self.on_fatal(msg)
        _real_exit(97)

    def finish(self, reason):
        if self.finishing:
            raise AssertionError("finish twice")
        self.finishing = True
        try:
            self.on_finish(reason)
        except BaseException:
            self.fatal(traceback.format_exc())
        sys.stdout.flush()
        sys.stderr.flush()
        _real_exit(0)
