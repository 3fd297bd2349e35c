"""Operating-system layer: the seams through which the code under test meets the OS.

Nothing here changes the code under test. Names it looks up at call time (time.time,
threading.Thread, psutil.Process, subprocess.Popen, os.getpid, ...) are replaced in the
harness process by versions that act on the simulated kernel.
"""
import _thread
import asyncio
import asyncio.base_events
import asyncio.base_subprocess
import asyncio.selector_events
import asyncio.unix_events
import atexit
import contextvars
import ctypes
import errno
import io
import multiprocessing
import os
import secrets
import signal
import socket as _rs
import stat as _stat
import subprocess
import sys
import threading
import time
import types
import uuid

import psutil

from . import aloop, images, kernel, net
from .kernel import MS, SEC, US

SIMHOME = "/xsim"
real = types.SimpleNamespace(
    time=time.time, monotonic=time.monotonic, sleep=time.sleep, perf=time.perf_counter,
    getpid=os.getpid, Popen=subprocess.Popen, exit=os._exit, Lock=threading.Lock,
    local=threading.local, Thread=threading.Thread, urandom=os.urandom, kill=os.kill,
    open=open,
)


def K():
    return kernel.K


def cur():
    k = kernel.K
    return k.cur if k is not None else None


# ------------------------------------------------------------------------- time
def _time():
    k = kernel.K
    if k is None or k.ctx_proc is None:
        return real.time()
    return k.ctx_proc.host.wall0 + k.now * 1e-9


def _mono():
    k = kernel.K
    if k is None or k.ctx_proc is None:
        return real.monotonic()
    return k.ctx_proc.host.mono0 + k.now * 1e-9


def _sleep(s):
    k = kernel.K
    if k is None or k.cur is None:
        return real.sleep(s)
    k.sleep(s)


# ---------------------------------------------------------------------- threads
class SimLock:
    """threading.Lock on the baton scheduler."""

    def __init__(self):
        self._locked = False
        self._w = []
        self._real = None

    def acquire(self, blocking=True, timeout=-1):
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        k = kernel.K
        if k is None or k.cur is None:
            raise RuntimeError("lock contention outside the simulation")
        me = k.cur
        deadline = None if timeout is None or timeout < 0 else k.now + int(timeout * SEC)
        while self._locked:
            if deadline is not None and k.now >= deadline:
                return False
            self._w.append(me)
            k.block(None if deadline is None else max(1, deadline - k.now))
            if me in self._w:
                self._w.remove(me)
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        if self._w:
            k = kernel.K
            th = self._w.pop(0)
            k.wake(th, 1 * US)

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimLocal:
    """threading.local keyed by simulated thread, emptied when that thread ends."""

    def __init__(self, *a, **kw):
        object.__setattr__(self, "_main", {})

    def _d(self):
        k = kernel.K
        th = k.cur if k is not None else None
        if th is None:
            return object.__getattribute__(self, "_main")
        d = th.locals.get(self)
        if d is None:
            d = th.locals[self] = {}
        return d

    def __getattribute__(self, name):
        if name == "__dict__":
            return object.__getattribute__(self, "_d")()
        if name.startswith("__") or name == "_d":
            return object.__getattribute__(self, name)
        d = object.__getattribute__(self, "_d")()
        try:
            return d[name]
        except KeyError:
            try:
                return object.__getattribute__(self, name)
            except AttributeError:
                raise AttributeError(
                    f"'_thread._local' object has no attribute {name!r}") from None

    def __setattr__(self, name, v):
        object.__getattribute__(self, "_d")()[name] = v

    def __delattr__(self, name):
        try:
            del object.__getattribute__(self, "_d")()[name]
        except KeyError:
            raise AttributeError(name) from None


class SimThreadObj:
    """threading.Thread."""

    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        SimThreadObj._n += 1
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or f"Thread-{SimThreadObj._n}"
        self.daemon = bool(daemon)
        self._th = None

    def start(self):
        k = kernel.K
        if self._th is not None:
            raise RuntimeError("threads can only be started once")
        self._th = k.new_thread(k.ctx_proc, self._boot, self.name, self.daemon,
                                delay=2 * US + int(k.rng.random() * 60 * US))
        self._th.pyobj = self

    def _boot(self):
        try:
            self.run()
        finally:
            self._target = self._args = self._kwargs = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def is_alive(self):
        return self._th is not None and not self._th.done

    @property
    def ident(self):
        return None if self._th is None else self._th.idx + 1

    native_id = ident

    def join(self, timeout=None):
        k = kernel.K
        if self._th is None:
            raise RuntimeError("cannot join thread before it is started")
        if self._th is k.cur:
            raise RuntimeError("cannot join current thread")
        if self._th.done:
            return
        end = None if timeout is None else k.now + int(max(0, timeout) * SEC)
        while not self._th.done:
            if end is not None and k.now >= end:
                break
            self._th.joiners.append(k.cur)
            k.block(None if end is None else max(1, end - k.now))

    def setDaemon(self, d):
        self.daemon = d

    def getName(self):
        return self.name

    def isDaemon(self):
        return self.daemon


class _Anon:
    def __init__(self, th):
        self.name = th.name
        self.ident = self.native_id = th.idx + 1
        self.daemon = th.daemon

    def is_alive(self):
        return True

    def __repr__(self):
        return f"<Thread({self.name}, {self.ident})>"


def _current_thread():
    th = cur()
    if th is None:
        return _real_current_thread()
    if th.pyobj is None:
        th.pyobj = _Anon(th)
    return th.pyobj


def _get_ident():
    th = cur()
    return _real_get_ident() if th is None else th.idx + 1


_real_current_thread = threading.current_thread
_real_get_ident = threading.get_ident


class _Timer(SimThreadObj):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.interval, self.function = interval, function
        self.args, self.kwargs = args or [], kwargs or {}
        self.finished = threading.Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


# --------------------------------------------------------------------- os, files
def _getpid():
    k = kernel.K
    if k is None or k.ctx_proc is None:
        return real.getpid()
    return k.ctx_proc.pid


def _getppid():
    p = kernel.K.ctx_proc
    return p.parent.pid if p.parent is not None else 1


def _os_exit(code):
    k = kernel.K
    if k is None or k.cur is None:
        real.exit(code)
    k.kill_current(code, "os._exit")


def _os_kill(pid, sig):
    k = kernel.K
    p = k.ctx_proc.host.procs.get(pid)
    if p is None or p.reaped:
        raise ProcessLookupError(errno.ESRCH, "No such process")
    self_kill = p is k.ctx_proc
    k.signal(p, sig)
    if self_kill and p.dead:
        k._dispatch(k.cur)


_fsreal = {n: getattr(os, n) for n in ("stat", "remove", "unlink", "makedirs", "mkdir", "urandom",
                                       "fstat", "ftruncate", "close", "listdir", "putenv",
                                       "unsetenv")}
_path_exists = os.path.exists
_path_isdir = os.path.isdir


def _virt(path):
    if isinstance(path, int):
        return None
    try:
        s = os.fspath(path)
    except TypeError:
        return None
    if isinstance(s, bytes):
        s = os.fsdecode(s)
    return s if s.startswith(SIMHOME) else None


def _fs():
    return kernel.K.ctx_proc.host.fs


def _v_stat(path, *a, **kw):
    v = _virt(path)
    if v is None:
        return _fsreal["stat"](path, *a, **kw)
    e = _fs().get(v)
    if e is None:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), v)
    mode = _stat.S_IFSOCK if e[0] == "sock" else _stat.S_IFDIR
    return os.stat_result((mode | 0o755, 1, 1, 1, 0, 0, 0, 0, 0, 0))


def _v_remove(path, *a, **kw):
    v = _virt(path)
    if v is None:
        return _fsreal["remove"](path, *a, **kw)
    if _fs().pop(v, None) is None:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), v)


def _v_makedirs(path, mode=0o777, exist_ok=False):
    v = _virt(path)
    if v is None:
        return _fsreal["makedirs"](path, mode, exist_ok)
    fs = _fs()
    if v in fs and not exist_ok:
        raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), v)
    cur = ""
    for part in v.strip("/").split("/"):
        cur += "/" + part
        fs.setdefault(cur, ("dir", None))


def _v_exists(path):
    v = _virt(path)
    if v is None:
        return _path_exists(path)
    return v in _fs()


def _v_isdir(path):
    v = _virt(path)
    if v is None:
        return _path_isdir(path)
    return _fs().get(v, ("",))[0] == "dir"


def _urandom(n):
    k = kernel.K
    if k is None:
        return b"\x5a" * n
    return k.orng.randbytes(n)


def _uuid1(*a):
    k = kernel.K
    return uuid.UUID(int=k.orng.getrandbits(128), version=1)


def _uuid4():
    k = kernel.K
    return uuid.UUID(int=k.orng.getrandbits(128), version=4)


def _token_hex(n=None):
    return _urandom(n or 32).hex()


def _token_bytes(n=None):
    return _urandom(n or 32)


def _atexit_register(fn, *a, **kw):
    k = kernel.K
    if k is None or k.ctx_proc is None:
        return fn
    if getattr(fn, "__module__", None) == "weakref":
        return fn  # one table for all images; interpreter exit is not simulated that far
    k.ctx_proc.atexit.append((fn, a, kw))
    return fn


# ---------------------------------------------------------------- shared memory
class FakeMmap(bytearray):
    def close(self):
        pass


class _ShmFd(int):
    pass


class PosixShm:
    """_posixshmem over a per-host table; mappings are shared byte arrays."""

    def __init__(self):
        self.n = 1_000_000
        self.fds = {}

    def shm_open(self, name, flags, mode=0o777):
        k = kernel.K
        t = k.ctx_proc.host.shm
        if flags & os.O_CREAT:
            if name in t:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), name)
            if k.knobs.get("shm_full_p") and k.orng.random() < k.knobs["shm_full_p"]:
                k.counters["shm ENOSPC"] += 1
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), name)
            t[name] = FakeMmap()
        elif name not in t:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)
        self.n += 1
        self.fds[self.n] = t[name]
        return self.n

    def shm_unlink(self, name):
        t = kernel.K.ctx_proc.host.shm
        if t.pop(name, None) is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)


SHM = PosixShm()


class _ShmOs:
    def __getattr__(self, n):
        return getattr(os, n)

    def ftruncate(self, fd, size):
        m = SHM.fds[fd]
        if len(m) < size:
            m.extend(b"\0" * (size - len(m)))

    def fstat(self, fd):
        return types.SimpleNamespace(st_size=len(SHM.fds[fd]))

    def close(self, fd):
        SHM.fds.pop(fd, None)


class _MmapMod:
    def mmap(self, fd, size, *a, **kw):
        return SHM.fds[fd]

    def __getattr__(self, n):
        import mmap
        return getattr(mmap, n)


def patch_image(image):
    """Per-image seams: shared memory, sockets, deterministic hashes of channels."""
    m = image.mods.get("xoscar.backends.indigen.shared_memory")
    if m is not None:
        if hasattr(m, "_posixshmem"):
            m._posixshmem = SHM
        m.os = _ShmOs()
        m.mmap = _MmapMod()
        orig = m.SharedMemory.__dict__.get("buf")
        if isinstance(orig, property):
            def buf(self, _get=orig.fget):
                k = kernel.K
                if k is not None and k.cur is not None and not k.finishing:
                    k.step()
                return _get(self)
            m.SharedMemory.buf = property(buf)
    for name, mod in image.mods.items():
        if name.split(".", 1)[0] == "xoscar" and getattr(mod, "socket", None) is _rs:
            mod.socket = SOCKMOD
    base = image.mods.get("xoscar.backends.communication.base")
    if base is not None:
        _det_hash(base.Channel)
    core = image.mods.get("xoscar.backends.communication.base")
    if core is not None:
        _det_hash(core.Client)


_hash_tab = {}
_hash_n = [0]


def _det_hash(cls):
    orig = cls.__init__

    def __init__(self, *a, **kw):
        _hash_n[0] += 1
        _hash_tab[id(self)] = _hash_n[0]
        orig(self, *a, **kw)

    cls.__init__ = __init__
    cls.__hash__ = lambda self: _hash_tab.get(id(self), 0)


# --------------------------------------------------------------------- processes
class FakePopen:
    """subprocess.Popen of one of xoscar's own sub pools."""

    def __init__(self, args, shell=False, stdin=None, stdout=None, stderr=None,
                 universal_newlines=False, bufsize=0, preexec_fn=None, env=None,
                 creationflags=0, **kw):
        k = kernel.K
        if k is None or k.cur is None or shell:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        self.args = args = list(args)
        parent = k.ctx_proc
        self.stdin = self.stdout = self.stderr = None
        self.returncode = None
        k.step()
        p_fail = k.knobs.get("spawn_fail_p", 0)
        if p_fail and k.frng.random() < p_fail:
            k.counters["fork failure"] += 1
            raise OSError(errno.EAGAIN, os.strerror(errno.EAGAIN))
        if args[0] == "taskset":
            args = args[3:]
        if not os.path.basename(args[0]).startswith("python"):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), args[0])
        child = k.new_proc(parent.host, "sub", parent,
                           {_b(a): _b(v) for a, v in (env if env is not None else
                                                      dict(os.environ)).items()})
        child.sigmask = set(parent.sigmask)
        self._p = child
        self.pid = child.pid
        if preexec_fn is not None:
            prev = k.ctx_proc
            k.ctx_proc = child
            try:
                preexec_fn()
            except Exception as e:
                k.ctx_proc = prev
                k.exit_proc(child, 255, "preexec")
                raise subprocess.SubprocessError("Exception occurred in preexec_fn.") from e
            finally:
                k.ctx_proc = prev
        lo, hi = k.knobs.get("spawn_ms", (30, 400))
        delay = int((lo + k.orng.random() * (hi - lo)) * MS)
        q = k.knobs.get("spawn_die_p", 0)
        if q and k.frng.random() < q:
            k.counters["child dies at startup"] += 1
            k.after(int(delay * k.frng.random()), k.exit_proc, child, 1, "startup failure")
        k.record("spawn", pid=child.pid, parent=parent.pid, argv=args[1:])
        k.new_thread(child, lambda: run_python(args), "main", delay=delay, main=True)

    def poll(self):
        if self.returncode is None and self._p.dead:
            kernel.K._reap(self._p)
            self.returncode = self._p.exitcode
        return self.returncode

    def wait(self, timeout=None):
        k = kernel.K
        end = None if timeout is None else k.now + int(timeout * SEC)
        while self.poll() is None:
            if end is not None and k.now >= end:
                raise subprocess.TimeoutExpired(self.args, timeout)
            self._p.exit_waiters.append(k.cur)
            k.block(None if end is None else max(1, end - k.now))
        return self.returncode

    def send_signal(self, sig):
        if self.poll() is None:
            kernel.K.signal(self._p, sig)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)


def _b(s):
    return s.encode() if isinstance(s, str) else s


def run_python(argv):
    """`python -m MODULE args...` in the current simulated process."""
    k = kernel.K
    p = k.ctx_proc
    take_image(p)
    assert argv[1] == "-m", argv
    mod = argv[2]
    import importlib.util

    spec = importlib.util.find_spec(mod)
    if spec.submodule_search_locations:
        spec = importlib.util.find_spec(mod + ".__main__")
    code = images._code_of(spec.origin)
    g = {"__name__": "__main__", "__file__": spec.origin, "__package__": mod,
         "__builtins__": __builtins__, "__spec__": None}
    old = sys.argv
    sys.argv = [spec.origin] + argv[3:]
    p.argv_restore = old
    try:
        try:
            exec(code, g)
        finally:
            sys.argv = old
    finally:
        main_exit(p)


def main_exit(p):
    """What the interpreter does after the main thread: join threads, run atexit."""
    k = kernel.K
    if p.dead:
        return
    for ex in p.executors:
        ex.shutdown(wait=True)
    me = k.cur
    for th in list(p.threads):
        if th is not me and not th.daemon and not th.done:
            while not th.done:
                th.joiners.append(me)
                k.block()
    for fn, a, kw in reversed(p.atexit):
        try:
            fn(*a, **kw)
        except Exception:
            pass


_pool = []


def take_image(p):
    k = kernel.K
    if _pool:
        p.image = _pool.pop(0)
    else:
        k.counters["late image"] += 1
        p.image = make_image()
    if k.ctx_proc is p:
        images.activate(p.image)
    rnd = p.image.mods.get("random")
    if rnd is not None:
        rnd.seed(k.orng.getrandbits(64))
    u = p.image.mods.get("xoscar._utils")
    if u is not None and hasattr(u, "reset_id_random_seed"):
        prev = k.ctx_proc
        u.reset_id_random_seed()
    dbg = p.image.mods.get("xoscar.debug")
    if dbg is not None and (b"DEBUG_OSCAR" in p.env):
        dbg.reload_debug_opts_from_env()
    return p.image


IMAGE_MODULES = ["random", "xoscar", "xoscar.backends.indigen.pool", "xoscar.backends.indigen",
                 "xoscar.backends.pool", "xoscar.aio", "xoscar.aio.lru", "xoscar.batch",
                 "xoscar.backends.allocate_strategy", "xoscar.backends.communication",
                 "simactors"]


def make_image():
    im = images.Image()
    k = kernel.K
    kernel.K = None  # importing is not part of the simulated execution
    try:
        im.load(IMAGE_MODULES)
        patch_image(im)
    finally:
        kernel.K = k
    return im


def preload(n):
    for _ in range(n):
        _pool.append(make_image())


# ------------------------------------------------------------------------ psutil
class FakePsProcess:
    def __init__(self, pid=None):
        k = kernel.K
        if pid is None:
            pid = k.ctx_proc.pid
        p = k.ctx_proc.host.procs.get(pid)
        if p is None or p.reaped:
            raise psutil.NoSuchProcess(pid)
        self._p = p
        self.pid = pid

    def _chk(self):
        if self._p.reaped:
            raise psutil.NoSuchProcess(self.pid)

    def status(self):
        self._chk()
        if self._p.dead:
            return psutil.STATUS_ZOMBIE
        return psutil.STATUS_STOPPED if self._p.stopped else psutil.STATUS_SLEEPING

    def is_running(self):
        return not self._p.reaped

    def children(self, recursive=False):
        self._chk()
        out = []
        todo = list(self._p.children)
        while todo:
            c = todo.pop(0)
            if not c.reaped:
                q = object.__new__(FakePsProcess)
                q._p, q.pid = c, c.pid
                out.append(q)
            if recursive:
                todo.extend(c.children)
        return out

    def parent(self):
        return None

    def ppid(self):
        return self._p.parent.pid if self._p.parent else 1

    def _sig(self, s):
        self._chk()
        kernel.K.signal(self._p, s)

    def kill(self):
        self._sig(9)

    def terminate(self):
        self._sig(15)

    def send_signal(self, s):
        self._sig(s)

    def suspend(self):
        self._sig(19)

    def resume(self):
        self._sig(18)

    def wait(self, timeout=None):
        k = kernel.K
        end = None if timeout is None else k.now + int(timeout * SEC)
        while not self._p.dead:
            if end is not None and k.now >= end:
                raise psutil.TimeoutExpired(timeout, pid=self.pid)
            self._p.exit_waiters.append(k.cur)
            k.block(None if end is None else max(1, end - k.now))
        return self._p.exitcode

    def create_time(self):
        return self._p.host.wall0 + self._p.born * 1e-9

    def __eq__(self, o):
        return isinstance(o, FakePsProcess) and o._p is self._p

    def __hash__(self):
        return self.pid


def _pid_exists(pid):
    return pid in kernel.K.ctx_proc.host.procs


def _net_connections(kind="inet"):
    h = kernel.K.ctx_proc.host
    out = []
    for (ip, port) in h.listeners:
        out.append(types.SimpleNamespace(
            laddr=types.SimpleNamespace(ip=ip, port=port), raddr=(), status="LISTEN", pid=None))
    return out


class _Prctl:
    restype = argtypes = None

    def __call__(self, op, a, b, c, d):
        k = kernel.K
        if k is None:
            return 0
        if op == 1:  # PR_SET_PDEATHSIG
            if k.knobs.get("no_prctl"):
                k.counters["pdeathsig ineffective"] += 1
                return 0
            k.ctx_proc.pdeathsig = int(a)
        return 0


class _CDLL:
    def __init__(self, real_cdll):
        self._r = real_cdll

    def __call__(self, name=None, *a, **kw):
        if name is None:
            return types.SimpleNamespace(prctl=_Prctl())
        return self._r(name, *a, **kw)

    def __getattr__(self, n):
        return getattr(self._r, n)


def _sigmask(how, mask):
    k = kernel.K
    if k is None or k.ctx_proc is None:
        return set()
    p = k.ctx_proc
    old = set(p.sigmask)
    if how == signal.SIG_BLOCK:
        p.sigmask |= set(mask)
    elif how == signal.SIG_UNBLOCK:
        p.sigmask -= set(mask)
    else:
        p.sigmask = set(mask)
    return old


SOCKMOD = net.SocketModule()


def _create_task_ctx(fn):
    return fn


def install():
    """Put every seam in place (once, before any image is loaded)."""
    # the harness's own environment must not leak into the simulation
    env = {b"PATH": b"/usr/bin", b"XOSCAR_DIR": (SIMHOME + "/home").encode(), b"HOME": b"/xsim/home"}
    os.environ._data = dict(env)
    install.base_env = env
    os.putenv = lambda *a: None
    os.unsetenv = lambda *a: None
    # os.environ.__setitem__ uses the module globals of os
    os.__dict__["putenv"] = os.putenv
    os.__dict__["unsetenv"] = os.unsetenv
    time.time, time.monotonic, time.sleep, time.perf_counter = _time, _mono, _sleep, _mono
    time.time_ns = lambda: int(_time() * 1e9)
    time.monotonic_ns = lambda: int(_mono() * 1e9)
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.local = SimLocal
    threading.Thread = SimThreadObj
    threading.Timer = _Timer
    threading.current_thread = threading.currentThread = _current_thread
    os.getpid, os.getppid, os._exit, os.kill = _getpid, _getppid, _os_exit, _os_kill
    os.stat, os.remove, os.unlink, os.makedirs = _v_stat, _v_remove, _v_remove, _v_makedirs
    os.path.exists, os.path.isdir = _v_exists, _v_isdir
    os.urandom = _urandom
    uuid.uuid1, uuid.uuid4 = _uuid1, _uuid4
    secrets.token_hex, secrets.token_bytes = _token_hex, _token_bytes
    atexit.register = _atexit_register
    subprocess.Popen = FakePopen
    psutil.Process = FakePsProcess
    psutil.pid_exists = _pid_exists
    psutil.net_connections = _net_connections
    ctypes.CDLL = _CDLL(ctypes.CDLL)
    signal.signal = lambda *a: None
    signal.pthread_sigmask = _sigmask
    multiprocessing.cpu_count = lambda: 8
    os.cpu_count = lambda: 8
    for m in (asyncio.base_events, asyncio.selector_events, asyncio.unix_events):
        m.socket = SOCKMOD
    import concurrent.futures.thread
    concurrent.futures.ThreadPoolExecutor = aloop.SimExecutor
    concurrent.futures.thread.ThreadPoolExecutor = aloop.SimExecutor
    policy = aloop.SimPolicy()
    asyncio.set_event_loop_policy(policy)
    orig_boot = kernel.Kernel._boot

    def _boot(self, th):
        policy._local.__dict__.clear()
        asyncio._set_running_loop(None)
        contextvars.Context().run(orig_boot, self, th)

    kernel.Kernel._boot = _boot


def set_random(seed):
    """Whatever still draws from the shared random module is seeded too."""
    import random
    random.seed(seed)
    import numpy
    numpy.random.seed(seed & 0xffffffff)
