"""Workload actors and the operation engine. One copy per simulated process (see images.py);
what they do is reported to the run's history, which is outside the simulation and survives
crashes."""
import asyncio
import threading
import contextvars
import sys
import time
import weakref
import zlib

import numpy as np
import xoscar as xo
from sim import kernel
from xoscar.backends.router import Router

_inst = 0
_tasks = set()


def K():
    return kernel.K


def rec(_k, **kw):
    k = kernel.K
    return k.record(_k, pid=k.ctx_proc.pid, **kw)


def probe(name):
    kernel.K.sim.probe(name)


def new_inst():
    global _inst
    _inst += 1
    return f"{kernel.K.ctx_proc.pid}.{_inst}"


# ------------------------------------------------------------------------ payloads
class Tok:
    """A value whose life is watched (P25)."""

    __slots__ = ("n", "seed", "__weakref__")

    def __init__(self, n, seed):
        self.n, self.seed = n, seed
        k = kernel.K
        k.sim.toks.append((k.ctx_proc.pid, n, seed, weakref.ref(self)))

    def __repr__(self):
        return f"Tok({self.n}, {self.seed})"

    def __reduce__(self):
        return Tok, (self.n, self.seed)


def payload(kind, n, seed):
    if kind == "t":
        return Tok(n, seed)
    if kind == "tl":
        return [Tok(n, seed + i) for i in range(4)] + [b"x" * n]
    if kind is None:
        return None
    if kind == "b":
        return (seed.to_bytes(4, "little") * (n // 4 + 1))[:n]
    if kind == "s":
        return (f"{seed}é" * (n // 4 + 1))[:n]
    if kind == "a":
        a = np.arange(n, dtype=np.int64)
        return a * 31 + seed
    if kind == "f":  # not contiguous
        a = np.arange(2 * n, dtype=np.float64).reshape(2, n)
        return (a + seed)[:, ::2] if n > 1 else a
    if kind == "l":  # more objects than are serialized inline
        return [[seed, i] for i in range(n)]
    if kind == "m":
        return {"x": payload("a", n // 8 + 1, seed), "y": [payload("b", n // 4 + 1, seed + 1), seed],
                "z": payload("l", min(n, 60), seed), ("k", seed): {1: None, 2.5: True}}
    if kind == "bs":  # many buffers
        return [payload("a", max(1, n // 8), seed + i) for i in range(7)]
    raise ValueError(kind)


def digest(p, h=0):
    if isinstance(p, (bytes, bytearray)):
        return zlib.crc32(p, h ^ 1)
    if isinstance(p, memoryview):
        return zlib.crc32(bytes(p), h ^ 1)
    if isinstance(p, np.ndarray):
        return zlib.crc32(np.ascontiguousarray(p).tobytes(), zlib.crc32(repr((p.dtype.str, p.shape)).encode(), h))
    if isinstance(p, dict):
        for k in p:
            h = digest(k, h)
            h = digest(p[k], h)
        return h ^ len(p)
    if isinstance(p, (list, tuple)):
        for x in p:
            h = digest(x, h)
        return h ^ (len(p) << 3)
    return zlib.crc32(repr(p).encode(), h)


class Body:
    """Brackets a method body in the history."""

    __slots__ = ("a", "m", "rid", "kw")

    def __init__(self, a, m, rid, **kw):
        self.a, self.m, self.rid, self.kw = a, m, rid, kw

    def __enter__(self):
        rec("start", uid=self.a.tag, inst=self.a.inst, m=self.m, rid=self.rid, **self.kw)
        return self

    def __exit__(self, t, v, tb):
        rec("end", uid=self.a.tag, inst=self.a.inst, m=self.m, rid=self.rid,
            st="ok" if t is None else t.__name__)
        return False


class AppError(Exception):
    def __init__(self, msg, code=0):
        super().__init__(msg, code)
        self.code = code


class KwError(ValueError):
    """Rebuilding it needs its keyword arguments: its constructor takes none by position."""

    def __init__(self, *, what, n):
        super().__init__(f"{what}/{n}")
        self.what, self.n = what, n

    def __reduce__(self):
        return _kwerror, (self.what, self.n)


def _kwerror(what, n):
    return KwError(what=what, n=n)


class NoPickle(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        self.g = (i for i in ())  # generators cannot be pickled


class NoPickleV:
    """A value that cannot be serialized."""

    def __repr__(self):
        return "NoPickleV"

    def __reduce__(self):
        raise TypeError("this value refuses to be pickled")


class NoUnpickle:
    """A value that cannot be rebuilt by the receiver."""

    def __init__(self, rid=0):
        self.rid = rid

    def __reduce__(self):
        return _explode, (self.rid,)


def _explode(rid):
    raise ValueError(f"this value refuses to be rebuilt {rid}")


class NoUnpickleErr(Exception):
    def __init__(self, a, b):
        super().__init__(f"{a}{b}")  # pickling keeps one argument, rebuilding needs two


ERRS = {
    "app": lambda rid: AppError(f"app:{rid}", rid),
    "tok": lambda rid: AppError(f"app:{rid}", Tok(-1, rid)),
    "value": lambda rid: ValueError(f"value:{rid}"),
    "key": lambda rid: KeyError(f"key:{rid}"),
    "os": lambda rid: OSError(5, f"os:{rid}"),
    "kw": lambda rid: KwError(what=f"kw:{rid}", n=rid),
    "stop": lambda rid: RuntimeError(f"StopIteration of {rid}"),
    "timeout": lambda rid: TimeoutError(f"timeout:{rid}"),
    "conn": lambda rid: ConnectionResetError(f"conn:{rid}"),
    "eof": lambda rid: EOFError(f"eof:{rid}"),
    "assert": lambda rid: AssertionError(f"assert:{rid}"),
    "nopickle": lambda rid: NoPickle(f"nopickle:{rid}"),
    "nounpickle": lambda rid: NoUnpickleErr("nounpickle:", rid),
    "unicode": lambda rid: UnicodeDecodeError("utf-8", b"\xff", 0, 1, f"unicode:{rid}"),
}


def mix(x, y, k, kws):
    return [x, list(y) if isinstance(y, tuple) else y, k, sorted(kws.items())]


def mix_of(op):
    """What bmix/bsmix have to see for the arguments of op."""
    if op["m"] == "bmix":
        return mix(op["args"][0] if op["args"] else op["kws"]["x"], tuple(op["args"][1:]), op["kws"].get("k", 5),
                   {n: v for n, v in op["kws"].items() if n not in ("k", "x")})
    a = list(op["args"])
    return mix(a[0] if a else op["kws"].get("x", 3), a[1] if len(a) > 1 else op["kws"].get("y"),
               op["kws"].get("k", 5), {})


class Base:
    tag = None

    def __init__(self, tag, *args, **kw):
        super().__init__()
        self.tag = tag
        self.inst = new_inst()
        self.args = args
        self.kw = kw
        self.count = 0
        if kw.get("cycle"):  # outlives its destruction until the garbage collector comes by
            self.me = self
        if kw.get("init_err"):
            rec("init_err", uid=tag, inst=self.inst)
            raise ERRS[kw["init_err"]](kw.get("rid", 0))

    async def __post_create__(self):
        await super().__post_create__()
        kw = self.kw
        rec("hook_create", uid=self.tag, inst=self.inst, addr=self.address, args=list(self.args))
        if kw.get("create_ms"):
            await asyncio.sleep(kw["create_ms"] / 1000)
        if kw.get("create_err"):
            rec("create_err", uid=self.tag, inst=self.inst)
            raise ERRS[kw["create_err"]](kw.get("rid", 0))
        rec("actor_up", uid=self.tag, inst=self.inst, addr=self.address, args=list(self.args))

    async def __pre_destroy__(self):
        kw = self.kw
        rec("hook_destroy", uid=self.tag, inst=self.inst)
        if kw.get("destroy_ms"):
            await asyncio.sleep(kw["destroy_ms"] / 1000)
        if kw.get("destroy_err"):
            rec("destroy_err", uid=self.tag, inst=self.inst)
            raise ERRS[kw["destroy_err"]](kw.get("rid", 0))
        await super().__pre_destroy__()
        rec("actor_down", uid=self.tag, inst=self.inst)

    # ---- plain calls
    async def do(self, rid, ms=0, err=None, pay=None, out=None, onc=None):
        with Body(self, "do", rid):
            if ms:
                await self._nap(rid, ms, onc)
            if err:
                raise ERRS[err](rid)
            return self._val(rid, pay, out)

    def sdo(self, rid, ms=0, err=None, pay=None, out=None):
        with Body(self, "sdo", rid):
            if err:
                raise ERRS[err](rid)
            return self._val(rid, pay, out)

    def busy(self, rid, ms=0):
        """Keeps the whole process busy."""
        with Body(self, "busy", rid):
            time.sleep(ms / 1000)
            return [rid, self.tag, self.inst, 0, None]

    async def _nap(self, rid, ms, onc):
        """Sleep; onc is what the body does when it is cancelled."""
        try:
            await asyncio.sleep(ms / 1000)
        except asyncio.CancelledError:
            rec("seen_cancel", uid=self.tag, rid=rid)
            if onc == "slow":
                await asyncio.sleep(0.03)
            elif onc == "err":
                raise AppError(f"cleanup:{rid}", rid)
            elif onc == "deaf":  # takes its time whatever happens
                await asyncio.sleep(3)
            if onc != "swallow":
                raise

    @xo.no_lock
    async def free(self, rid, ms=0, err=None, pay=None, out=None, onc=None):
        with Body(self, "free", rid):
            if ms:
                await self._nap(rid, ms, onc)
            if err:
                raise ERRS[err](rid)
            return self._val(rid, pay, out)

    def _val(self, rid, pay, out):
        self.count += 1
        if out is not None and out[0] == "nopickle":
            return [rid, self.tag, self.inst, 0, NoPickleV()]
        if out is not None and out[0] == "nounpickle":
            return [rid, self.tag, self.inst, 0, NoUnpickle(rid)]
        return [rid, self.tag, self.inst, digest(pay), payload(*out) if out else None]

    # ---- batches
    @xo.extensible
    async def bplain(self, rid, ms=0, err=None, pay=None, out=None):
        """Batched one by one."""
        with Body(self, "bplain", rid):
            if ms:
                await asyncio.sleep(ms / 1000)
            if err:
                raise ERRS[err](rid)
            return self._val(rid, pay, out)

    @xo.extensible
    def bsync(self, rid, ms=0, err=None, pay=None, out=None):
        with Body(self, "bsync", rid):
            if err:
                raise ERRS[err](rid)
            return self._val(rid, pay, out)

    @xo.extensible
    async def bown(self, rid, ms=0, err=None, pay=None, out=None):
        with Body(self, "bown", rid):
            if ms:
                await asyncio.sleep(ms / 1000)
            if err:
                raise ERRS[err](rid)
            return self._val(rid, pay, out)

    @bown.batch
    async def bown(self, args_list, kwargs_list):
        res = []
        a = [self.bown.bind(*a, **k) for a, k in zip(args_list, kwargs_list)]
        rids = [x.rid for x in a]
        with Body(self, "bown.batch", rids[0] if rids else -1, rids=rids):
            for x in a:
                with Body(self, "bown", x.rid, inner=1):
                    if x.ms:
                        await asyncio.sleep(x.ms / 1000)
                    if x.err:
                        raise ERRS[x.err](x.rid)
                    res.append(self._val(x.rid, x.pay, x.out))
        return res

    @xo.extensible
    def bsown(self, rid, ms=0, err=None, pay=None, out=None):
        raise NotImplementedError

    @bsown.batch
    def bsown(self, args_list, kwargs_list):
        res = []
        for a, k in zip(args_list, kwargs_list):
            x = self.bsown.bind(*a, **k)
            with Body(self, "bsown", x.rid, inner=1):
                if x.err:
                    raise ERRS[x.err](x.rid)
                res.append(self._val(x.rid, x.pay, x.out))
        return res

    @xo.extensible
    @xo.no_lock
    async def bfree(self, rid, ms=0, err=None, pay=None, out=None):
        """Batched one by one, without the actor's lock."""
        with Body(self, "bfree", rid):
            if ms:
                await asyncio.sleep(ms / 1000)
            if err:
                raise ERRS[err](rid)
            return self._val(rid, pay, out)

    @xo.extensible
    async def bmix(self, rid, x, *more, k=5, **kws):
        """All shapes of arguments."""
        with Body(self, "bmix", rid):
            return [rid, self.tag, self.inst, digest(mix(x, more, k, kws)), None]

    @bmix.batch
    async def bmix(self, args_list, kwargs_list):
        res = []
        for a, k in zip(args_list, kwargs_list):
            b = self.bmix.bind(*a, **k)
            with Body(self, "bmix", b.rid, inner=1):
                await asyncio.sleep(0)
                res.append([b.rid, self.tag, self.inst, digest(mix(b.x, b.more, b.k, b.kws)), None])
        return res

    @xo.extensible
    def bsmix(self, rid, x=3, y=None, *, k=5):
        with Body(self, "bsmix", rid):
            return [rid, self.tag, self.inst, digest(mix(x, y, k, {})), None]

    @xo.extensible
    async def bnone(self, rid):
        raise NotImplementedError

    @bnone.batch
    async def bnone(self, args_list, kwargs_list):
        for a, k in zip(args_list, kwargs_list):
            with Body(self, "bnone", self.bnone.bind(*a, **k).rid, inner=1):
                pass

    @xo.extensible
    def bsnone(self, rid):
        raise NotImplementedError

    @bsnone.batch
    def bsnone(self, args_list, kwargs_list):
        for a, k in zip(args_list, kwargs_list):
            with Body(self, "bsnone", self.bsnone.bind(*a, **k).rid, inner=1):
                pass

    # ---- generators
    @xo.generator
    def gen(self, rid, n, ms=0, err_at=None, err="app"):
        def g():
            rec("gen_new", uid=self.tag, rid=rid)
            try:
                for i in range(n):
                    if i == err_at:
                        raise ERRS[err](rid)
                    rec("gen_val", uid=self.tag, rid=rid, n=i)
                    yield [rid, i]
                if err_at is not None and err_at >= n:
                    raise ERRS[err](rid)
            finally:
                rec("gen_end", uid=self.tag, rid=rid)

        return g()

    @xo.generator
    def gena(self, rid, n, ms=0, err_at=None, err="app"):
        return self.agen_(rid, n, ms, err_at, err)

    @xo.generator
    async def agen(self, rid, n, ms=0, err_at=None, err="app"):
        return self.agen_(rid, n, ms, err_at, err)

    async def agen_(self, rid, n, ms, err_at, err):
        rec("gen_new", uid=self.tag, rid=rid)
        try:
            for i in range(n):
                if ms:
                    await asyncio.sleep(ms / 1000)
                if i == err_at:
                    raise ERRS[err](rid)
                rec("gen_val", uid=self.tag, rid=rid, n=i)
                yield [rid, i]
            if err_at is not None and err_at >= n:
                raise ERRS[err](rid)
        finally:
            rec("gen_end", uid=self.tag, rid=rid)

    @xo.no_lock
    def n_generators(self):
        return len(self._generators)

    async def consume(self, rid, it, think=0, stop_at=None):
        """Iterates a generator that was handed over, inside a locked body."""
        with Body(self, "consume", rid):
            return await iterate(f"in {self.tag}", rid, it, think, stop_at)

    # ---- yielding methods
    async def yld(self, rid, steps, ret=None, err=None):
        """steps: list of awaitables to yield; every result must come back at its yield."""
        got = []
        n = -1
        rec("ystart", uid=self.tag, inst=self.inst, rid=rid)
        for n, s in enumerate(steps):
            rec("ysec", uid=self.tag, inst=self.inst, rid=rid, n=n, e=0)
            try:
                if s.get("hold"):
                    await asyncio.sleep(s["hold"] / 1000)
                co = self._ystep(rid, n, s)
            finally:
                rec("ysec", uid=self.tag, inst=self.inst, rid=rid, n=n, e=1)
            try:
                v = yield co
            except AppError as e:
                rec("yerr", uid=self.tag, inst=self.inst, rid=rid, n=n, em=str(e))
                v = ["err", str(e)]
            except asyncio.CancelledError:
                rec("ycancel", uid=self.tag, inst=self.inst, rid=rid, n=n)
                raise
            got.append(v)
        rec("yend", uid=self.tag, inst=self.inst, rid=rid)
        if err:
            raise ERRS[err](rid)
        raise xo.Return([rid, self.tag, self.inst, got])

    def _ystep(self, rid, n, s):
        k = s["k"]
        if k == "sleep":
            return self._ysleep(rid, n, s.get("ms", 1), s.get("err"), s.get("deaf"))
        if k == "call":
            return s["ref"].do(s["rid"], s.get("ms", 0), s.get("err"))
        if k == "ycall":
            return s["ref"].yld(s["rid"], s["steps"], err=s.get("err"))
        if k == "own":  # an asynchronous generator, driven for us
            return self.yld(s["rid"], s["steps"], err=s.get("err"))
        if k == "tuple":
            return tuple(self._ystep(rid, f"{n}.{i}", x) for i, x in enumerate(s["items"]))
        if k == "val":
            return s["v"]
        raise ValueError(k)

    async def _ysleep(self, rid, n, ms, err=None, deaf=None):
        rec("part", uid=self.tag, rid=rid, n=n)
        try:
            try:
                await asyncio.sleep(ms / 1000)
            except asyncio.CancelledError:
                if not deaf:
                    raise
                rec("part_deaf", uid=self.tag, rid=rid, n=n)
            if err:
                raise ERRS[err](rid)
            return ["slept", rid, str(n)]
        except asyncio.CancelledError:
            rec("part_cancel", uid=self.tag, rid=rid, n=n)
            raise
        finally:
            rec("part_end", uid=self.tag, rid=rid, n=n)

    def tup(self, rid, items):
        """Returns a tuple of values and awaitables."""
        rec("start", uid=self.tag, inst=self.inst, m="tup", rid=rid)
        rec("end", uid=self.tag, inst=self.inst, m="tup", rid=rid, st="ok")
        return tuple(self._ystep(rid, i, s) for i, s in enumerate(items))

    async def atup(self, rid, items):
        with Body(self, "atup", rid):
            await asyncio.sleep(0)
            return tuple(self._ystep(rid, i, s) for i, s in enumerate(items))

    # ---- others
    async def relay(self, rid, ref, rid2, ms=0, err=None, tell=False):
        """Calls another actor from inside a locked body."""
        with Body(self, "relay", rid):
            if tell:
                await ref.do.tell(rid2, ms, err)
                return [rid, self.tag, self.inst, None]
            v = await ref.do(rid2, ms, err)
            return [rid, self.tag, self.inst, v[:3]]

    @xo.no_lock
    async def where(self):
        return [kernel.K.ctx_proc.pid, self.address, self.inst, self.uid_str()]

    def uid_str(self):
        u = self.uid
        return u.decode() if isinstance(u, bytes) else str(u)

    async def counter(self):
        return self.count


class T(Base, xo.Actor):
    pass


class TU(Base, xo.Actor):
    """Many programs name their actors like this, which hides the property of the base class."""

    @classmethod
    def uid(cls):
        return "TU"


class TS(Base, xo.StatelessActor):
    pass


# ------------------------------------------------------------------------- callers
def fill(op, refs):
    """Replace reference indices inside yield steps by actor references."""
    if isinstance(op, dict):
        d = {k: fill(v, refs) for k, v in op.items()}
        if d.get("k") in ("call", "ycall") and "to" in d:
            d["ref"] = refs[d["to"]]
        return d
    if isinstance(op, list):
        return [fill(x, refs) for x in op]
    return op


def check_val(op, v):
    """Is v the value this very call has to produce?  Returns None or a complaint."""
    m = op["m"]
    if m in ("bnone", "bsnone"):
        return None if v is None else f"value {v!r:.200} instead of None"
    if m in ("bmix", "bsmix"):
        if not isinstance(v, list) or len(v) != 5:
            return f"malformed value {v!r:.200}"
        if v[0] != op["rid"]:
            return f"value of call {v[0]}"
        return None if v[3] == digest(mix_of(op)) else "arguments mixed up"
    if m in ("do", "sdo", "free", "bplain", "bsync", "bown", "bsown", "bfree"):
        if not isinstance(v, list) or len(v) != 5:
            return f"malformed value {v!r:.200}"
        exp = digest(payload(*op["pay"])) if op.get("pay") else digest(None)
        if v[0] != op["rid"]:
            return f"value of call {v[0]}"
        if v[3] != exp:
            return f"argument damaged: digest {v[3]} != {exp}"
        if op.get("out"):
            want = payload(*op["out"])
            if digest(v[4]) != digest(want):
                return "result payload damaged"
    return None


class Refs(list):
    """References by actor index; `main` are those that address the actor through its main process."""

    def __init__(self, targets):
        self.main = [xo.create_actor_ref(t[2], t[1].encode(), proxies_of(t[2])) for t in targets]


def proxies_of(addr):
    """Clients outside of any pool know their way by the references they got."""
    ps = kernel.K.sim.proxies
    if ps is None or Router.get_instance() is not None:
        return None
    return ps.get(addr)


async def do_op(who, op, refs, direct=False):
    """Issue one operation; records call/ret. Never raises (except own cancellation)."""
    k = kernel.K
    if op.get("on"):
        await k.sim.event(op["on"]).wait()
    if op.get("at"):
        await asyncio.sleep(op["at"] / 1000)
    kind = op["k"]
    if kind == "seq":
        for o in op["ops"]:
            await do_op(who, o, refs, True)
        return
    if kind == "par":
        await asyncio.gather(*[do_op(who, o, refs) for o in op["ops"]])
        return
    if kind == "sleep":
        return
    fn = OPS.get(kind)
    rid = op.get("rid")
    if op.get("mainref"):
        refs = refs.main
    i = rec("call", who=who, op=kind, rid=rid, uid=op.get("uid"), m=op.get("m"))
    st, val, exc = "ok", None, None
    # in a sequence nothing comes between one operation and the next
    task = fn(who, op, refs) if direct and "cancel" not in op else asyncio.ensure_future(fn(who, op, refs))
    if "cancel" in op:
        def canc():
            if not task.done():
                rec("cancel", who=who, rid=rid)
                task.cancel()
                if "cancel2" in op:
                    asyncio.get_running_loop().call_later(op["cancel2"] / 1000, canc)
                    op.pop("cancel2")
        k_at = op["cancel"] / 1000
        if k_at <= 0:
            await asyncio.sleep(0)
            canc()
        else:
            asyncio.get_running_loop().call_later(k_at, canc)
    try:
        val = await task
    except asyncio.CancelledError:
        st = "cancelled"
        if asyncio.current_task().cancelling():
            if hasattr(task, "cancel"):
                task.cancel()
            rec("ret", who=who, op=kind, rid=rid, st="aborted", call=i)
            raise
    except BaseException as e:
        st, exc = "err", e
    kw = {}
    if exc is not None:
        kw["et"] = type(exc).__name__
        kw["mro"] = [c.__name__ for c in type(exc).__mro__]
        kw["em"] = str(exc)[:400]
        kw["ea"] = repr(getattr(exc, "args", None))[:300]
    rec("ret", who=who, op=kind, rid=rid, st=st, v=val, call=i, **kw)
    exc = None


def _args(op):
    a = [op["rid"]]
    if "args" in op:
        return a + op["args"], op["kws"]
    kw = {}
    for n in ("ms", "err", "onc"):
        if op.get(n):
            kw[n] = op[n]
    if op.get("pay"):
        if op["pay"][0] == "nopickle":
            kw["pay"] = NoPickleV()
        elif op["pay"][0] == "nounpickle":
            kw["pay"] = NoUnpickle(op["rid"])
        else:
            kw["pay"] = payload(*op["pay"])
    if op.get("out"):
        kw["out"] = list(op["out"])
    return a, kw


def _slim(op, v):
    c = check_val(op, v)
    if c:
        return {"bad": c}
    return v[:3] if isinstance(v, list) else v


async def _send(who, op, refs):
    a, kw = _args(op)
    v = await getattr(refs[op["a"]], op["m"])(*a, **kw)
    return _slim(op, v)


async def _tell(who, op, refs):
    a, kw = _args(op)
    v = await getattr(refs[op["a"]], op["m"]).tell(*a, **kw)
    return None


async def _batch(who, op, refs):
    meth = getattr(refs[op["a"]], op["m"])
    ds = []
    for o in op["items"]:
        a, kw = _args(o)
        ds.append(meth.delay(*a, **kw))
    if op.get("tellb"):
        await meth.batch(*ds, send=False)
        return None
    v = await meth.batch(*ds)
    if op["m"] in ("bnone", "bsnone") and v is None and ds:
        return [None] * len(ds)
    if not isinstance(v, (list, tuple)) or len(v) != len(ds):
        return {"bad": f"{v!r:.100} for {len(ds)} calls"}
    out = []
    for o, x in zip(op["items"], v):
        c = check_val({**o, "m": op["m"]}, x)
        if c:
            return {"bad": c}
        out.append(x[:3] if x else x)
    return out


async def _wait(who, op, refs):
    a, kw = _args(op)
    v = await xo.wait_for(getattr(refs[op["a"]], op["m"])(*a, **kw), timeout=op["tmo"] / 1000)
    return _slim(op, v)


async def _delay(who, op, refs):
    a, kw = _args(op)
    t = getattr(refs[op["a"]], op["m"]).tell_delay(*a, delay=op["delay"] / 1000, **kw)
    if "dcancel" in op:
        def canc():
            if not t.done():
                rec("cancel", who=who, rid=op["rid"])
                t.cancel()
        asyncio.get_running_loop().call_later(op["dcancel"] / 1000, canc)
    v = await t
    return None


async def _yld(who, op, refs):
    v = await refs[op["a"]].yld(op["rid"], fill(op["steps"], refs), err=op.get("err"))
    return v


async def _tup(who, op, refs):
    v = await getattr(refs[op["a"]], op.get("m", "tup"))(op["rid"], fill(op["steps"], refs))
    if type(v) is not tuple:
        return {"bad": f"{type(v).__name__} instead of a tuple"}
    return list(v)


async def _relay(who, op, refs):
    v = await refs[op["a"]].relay(op["rid"], refs[op["b"]], op["rid2"], op.get("ms", 0),
                                  op.get("err"), op.get("tell", False))
    return v


async def iterate(who, rid, g, think, lim):
    got = 0
    try:
        async for v in g:
            rec("item", who=who, rid=rid, v=v)
            got += 1
            if think:
                await asyncio.sleep(think / 1000)
            if lim is not None and got >= lim:
                return {"got": got, "stopped": True}
    except BaseException as e:
        rec("gen_exc", who=who, rid=rid, n=got, et=type(e).__name__, em=str(e)[:100])
        raise
    return {"got": got, "end": True}


async def _gen(who, op, refs):
    g = await getattr(refs[op["a"]], op["m"])(op["rid"], op["n"], op.get("ms", 0),
                                              op.get("err_at"), op.get("err", "app"))
    if op.get("drop"):
        return {"got": 0, "stopped": True}
    if "via" in op:
        return await refs[op["via"]].consume(op["rid"], g, op.get("think", 0), op.get("stop_at"))
    return await iterate(who, op["rid"], g, op.get("think", 0), op.get("stop_at"))


async def _where(who, op, refs):
    return await refs[op["a"]].where()


# ------------------------------------------------------------------- management ops
_refs = {}  # references this process obtained by creating or looking up, by uid


def share_ref(uid, ref):
    """Refs travel between processes the way user code sends them: pickled."""
    import pickle
    _refs[uid] = ref
    kernel.K.sim.ref_bytes[uid] = pickle.dumps(ref)


def get_ref(uid):
    import pickle
    b = kernel.K.sim.ref_bytes.get(uid)
    return None if b is None else pickle.loads(b)


def where_addr(op):
    """Address an op is sent to: a member of a pool."""
    p = kernel.K.sim.pools[op["pool"]]
    if op.get("slot") == "main" or "slot" not in op:
        return p["addr"]
    if isinstance(op["slot"], str):  # one that was added at run time
        a = p.get("toks", {}).get(op["slot"])
        if a is None:
            raise NoSuchProcess(op["slot"])
        return a
    return p["addrs"][op["slot"] % len(p["addrs"])]


def strategy(st):
    from xoscar import allocate_strategy as S
    k = st["k"]
    if k == "main":
        return S.MainPool()
    if k == "sub":
        return S.RandomSubPool()
    if k == "random":
        return S.Random()
    if k == "index":
        return S.ProcessIndex(st["i"])
    if k == "label":
        return S.RandomLabel(st["label"])
    if k == "idle":
        return S.IdleLabel(st["label"], st.get("mark"))
    raise ValueError(k)


async def _create(who, op, refs):
    kw = dict(op.get("kw", {}))
    if op.get("strat"):
        kw["allocate_strategy"] = strategy(op["strat"])
    args = op.get("args", [op["rid"]])
    if args == ["nopickle"]:
        args = [NoPickleV()]
    ref = await xo.create_actor(globals()[op.get("cls", "T")], op["uid"], *args,
                                uid=op["uid"], address=where_addr(op), **kw)
    share_ref(op["uid"], ref)
    u = ref.uid
    return [ref.address, u.decode() if isinstance(u, bytes) else str(u)]


def _mkref(op):
    if op.get("held") and op["uid"] in _refs:  # what this process got long ago
        return _refs[op["uid"]]
    if op.get("byref"):
        r = get_ref(op["uid"])
        if r is not None:
            return r
    a = where_addr(op)
    return xo.create_actor_ref(a, op["uid"].encode(), proxies_of(a))


async def _look(addr, uid):
    ps = proxies_of(addr)
    if ps is None:
        return await xo.actor_ref(address=addr, uid=uid)
    return await xo.actor_ref(xo.create_actor_ref(addr, uid.encode(), ps))


async def _destroy(who, op, refs):
    await xo.destroy_actor(_mkref(op))
    return None


async def _has(who, op, refs):
    return await xo.has_actor(_mkref(op))


async def _ref(who, op, refs):
    r = await _look(where_addr(op), op["uid"])
    share_ref(op["uid"], r)
    return r.address


async def _calluid(who, op, refs):
    """Look up, then call."""
    if op.get("held") and op["uid"] in _refs:
        r = _refs[op["uid"]]
        rec("held", rid=op["rid"], local=type(r).__name__)
    else:
        r = await _look(where_addr(op), op["uid"])
        if op.get("keep"):
            _refs[op["uid"]] = r
    v = await r.do(op["rid"], op.get("ms", 0))
    return v[:3]


async def _kill(who, op, refs):
    await xo.kill_actor(_mkref(op))
    return None


async def _waitrec(who, op, refs):
    """Wait for the recovery of a process, then use what lives there."""
    a = where_addr(op)
    await xo.wait_actor_pool_recovered(a, kernel.K.sim.pools[op["pool"]]["addr"])
    rec("recovered", rid=op["rid"], addr=a)
    out = []
    for uid in op["uids"]:
        try:
            r = await xo.actor_ref(address=a, uid=uid)
            v = await r.do(op["rid"])
            out.append([uid, "ok", v[1]])
        except Exception as e:
            out.append([uid, type(e).__name__, str(e)[:200]])
    if op.get("new"):
        try:
            r = await xo.create_actor(T, op["new"], op["rid"], uid=op["new"], address=a)
            out.append([op["new"], "ok", (await r.do(op["rid"]))[1]])
        except Exception as e:
            out.append([op["new"], type(e).__name__, str(e)[:200]])
    return out


class NoSuchProcess(Exception):
    """The plan refers to a process that was not added (yet)."""


async def _append(who, op, refs):
    sim = kernel.K.sim
    a = None
    try:
        p = sim.pools[op["pool"]]
        a = await p["obj"].append_sub_pool(label=op.get("label"), **op.get("kw", {}))
        p.setdefault("toks", {})[op["tok"]] = a
    finally:
        sim.event("app:" + op["tok"]).set(a)
    return a


async def _remove(who, op, refs):
    a = where_addr(op)
    rec("removing", rid=op["rid"], addr=a)
    await kernel.K.sim.pools[op["pool"]]["obj"].remove_sub_pool(a, **op.get("kw", {}))
    return a


async def _config(who, op, refs):
    c = await xo.get_pool_config(where_addr(op))
    return c.get_external_addresses()


OPS = {"append": _append, "remove": _remove, "config": _config, "waitrec": _waitrec, "create": _create, "destroy": _destroy, "has": _has, "ref": _ref, "calluid": _calluid,
       "kill": _kill, "send": _send, "tell": _tell, "batch": _batch, "wait": _wait, "delay": _delay,
       "yld": _yld, "tup": _tup, "relay": _relay, "gen": _gen, "where": _where}


def in_thread(who, targets, ops, thr):
    """A caller's thread: one event loop after another."""
    sim = kernel.K.sim

    async def loop_main(lp, refs):
        if refs is None:
            refs = Refs(targets)
            for t in targets:
                refs.append(xo.create_actor_ref(t[0], t[1].encode(), proxies_of(t[0])))
        mine = [op for op in ops if op.get("lp", 0) == lp]
        if any(op.get("on") == "final" for op in mine):
            await sim.event("final").wait()
        rec("loop", who=who, lp=lp)
        await asyncio.gather(*[asyncio.ensure_future(do_op(who, op, refs)) for op in mine])

    refs = None
    try:
        if thr.get("share"):  # references outlive the loops that use them
            refs = Refs(targets)
            for t in targets:
                refs.append(xo.create_actor_ref(t[0], t[1].encode(), proxies_of(t[0])))
        for lp in range(thr["loops"]):
            asyncio.run(loop_main(lp, refs))
            rec("loop_end", who=who, lp=lp)
        rec("caller_done", who=who)
    except BaseException as e:
        rec("thread_failed", who=who, et=type(e).__name__, em=str(e)[:300])
        raise
    finally:
        sim.event(f"done:{who}").set()


async def run_caller(who, targets, ops):
    """Waits for the go event, runs the ops, reports."""
    sim = kernel.K.sim
    thr = next((c.get("thr") for c in sim.plan.get("callers", ()) if c["who"] == who), None)
    if thr:
        sim.event(f"ready:{who}").set()
        await sim.event("go").wait()
        if thr["kind"] == "pool":
            await asyncio.to_thread(in_thread, who, targets, ops, thr)
        else:
            threading.Thread(target=in_thread, args=(who, targets, ops, thr), daemon=True).start()
        return
    refs = Refs(targets)
    try:
        for t in targets:
            if sim.plan.get("cold"):  # nothing has been said before
                refs.append(xo.create_actor_ref(t[0], t[1].encode(), proxies_of(t[0])))
            else:
                refs.append(await _look(t[0], t[1]))
    except Exception as e:
        rec("setup_failed", what=f"actor_ref {t}", et=type(e).__name__, em=str(e)[:200])
        sim.event(f"ready:{who}").set()
        sim.event(f"done:{who}").set()
        return
    sim.event(f"ready:{who}").set()
    await sim.event("go").wait()
    ts = [asyncio.ensure_future(do_op(who, op, refs)) for op in ops]
    await asyncio.gather(*ts)
    rec("caller_done", who=who)
    sim.event(f"done:{who}").set()


class Caller(xo.StatelessActor):
    async def run(self, who, targets, ops):
        rec("caller_at", who=who)
        t = asyncio.ensure_future(run_caller(who, targets, ops))
        _tasks.add(t)
        t.add_done_callback(_tasks.discard)
        return kernel.K.ctx_proc.pid


# ------------------------------------------------------------------- copies (P12)
GUARD = 24


def stuff(seed, n):
    return np.random.RandomState(seed & 0x7fffffff).bytes(n)


class Disk:
    """The file behind an AioFileObject, with the disk it lies on."""

    def __init__(self, data=b"", cap=None, err_at=None, raw=False, chop=None):
        self.b = bytearray(data)
        self.pos = 0
        self.cap, self.err_at, self.raw, self.chop = cap, err_at, raw, chop
        self.n = 0
        self.hurt = None

    def read(self, n=-1):
        self.n += 1
        if self.err_at is not None and self.n > self.err_at:
            self.hurt = "read"
            raise OSError(5, "Input/output error")
        if n is None or n < 0:
            n = len(self.b)
        if self.chop and n > 1:
            n = 1 + self.chop[self.n % len(self.chop)] % n
        d = bytes(self.b[self.pos:self.pos + n])
        self.pos += len(d)
        return d

    def write(self, data):
        self.n += 1
        if self.err_at is not None and self.n > self.err_at:
            self.hurt = "write"
            raise OSError(5, "Input/output error")
        d = bytes(memoryview(data))
        n = len(d)
        if self.raw and self.chop and n > 1:
            n = 1 + self.chop[self.n % len(self.chop)] % n
            d = d[:n]
        if self.cap is not None and len(self.b) + n > self.cap:
            room = self.cap - len(self.b)
            self.hurt = "full"
            if not self.raw or room <= 0:
                self.b += d[:room]
                raise OSError(28, "No space left on device")
            d, n = d[:room], room
        self.b += d
        return n


class Holder(xo.StatelessActor):
    """Keeps the targets of copies."""

    def __init__(self, tag="?"):
        self.t = {}

    async def alloc(self, rid, specs):
        out = []
        ts = self.t[rid] = []
        for s in specs:
            if s["k"] == "file":
                f = Disk(cap=s.get("cap"), err_at=s.get("err_at"), raw=s.get("raw"), chop=s.get("chop"))
                from xoscar.aio import AioFileObject
                o = AioFileObject(f)
                ts.append(["file", f, o])
                out.append(xo.file_object_ref(self.address, o))
                continue
            dt = np.dtype(s.get("dt", "u1"))
            base = np.frombuffer(bytearray(b"\xee" * ((s["n"] + 2 * GUARD) * dt.itemsize)), dtype=dt)
            v = base[GUARD:GUARD + s["n"]]
            if s["k"] == "mv":
                v = memoryview(v)
            ts.append(["buf", base, v])
            out.append(xo.buffer_ref(self.address, v))
        return out

    async def drop(self, rid, i):
        self.t[rid][i][2] = None

    async def peek(self, rid, seeds):
        """Per target: "ok", or what it holds instead."""
        out = []
        for (k, base, v), s in zip(self.t[rid], seeds):
            if k == "file":
                want, got = stuff(s["seed"], s["n"]), bytes(base.b)
                w = "ok"
            else:
                z = base.dtype.itemsize
                want = stuff(s["seed"], s["n"] * z)
                raw = base.tobytes()
                g = GUARD * z
                w = "ok" if raw[:g] == b"\xee" * g == raw[len(raw) - g:] else "outside"
                got = raw[g:len(raw) - g]
            if w == "ok" and got != want:
                w = f"{len(got)} of {len(want)} bytes, first difference at " + str(
                    next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want))))
                if k == "file" and not want.startswith(got):
                    w += ", not a prefix"
            out.append([w, getattr(base, "hurt", None)])
        return out


async def _copy(who, op, refs):
    h = refs[op["a"]]
    rid = op["rid"]
    specs = op["bufs"]
    rem = await h.alloc(rid, specs)
    if op.get("drop") is not None:
        await h.drop(rid, op["drop"])
    loc = []
    for i, s in enumerate(specs):
        if s["k"] == "file":
            from xoscar.aio import AioFileObject
            loc.append(AioFileObject(Disk(stuff(s["seed"], s["n"]), err_at=s.get("rerr_at"), chop=s.get("rchop"))))
            continue
        dt = np.dtype(s.get("dt", "u1"))
        a = np.frombuffer(stuff(s["seed"], s["n"] * dt.itemsize), dtype=dt)
        src = s.get("src", "np")
        if src == "bytes":
            a = a.tobytes()
        elif src == "strided":
            b = np.zeros(2 * len(a), dtype=dt)
            b[::2] = a
            a = b[::2]
        elif src == "rw":
            a = a.copy()
        loc.append(a)
    rec("copying", rid=rid)
    try:
        await xo.copy_to(loc, rem, **({"block_size": op["block"]} if op.get("block") else {}))
    except BaseException as e:
        rec("copied", rid=rid, st=type(e).__name__, em=str(e)[:200])
        if isinstance(e, Exception) and not op.get("nopeek"):
            try:
                rec("content", rid=rid, r=await h.peek(rid, specs))
            except Exception:
                pass
        raise
    rec("copied", rid=rid, st="ok")
    for a, s in zip(loc, specs):  # the sources belong to the caller again
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[:] = 0
    r = await h.peek(rid, specs)
    rec("content", rid=rid, r=r)
    return None


OPS["copy"] = _copy


# ----------------------------------------------------------- the async cache (P21)
_cur_op = contextvars.ContextVar("cur_op", default=None)
_caches = {}
_eid = 0


def the_cache(op, refs):
    """The cached coroutine `op["cache"]` of this process, made at its first use."""
    from xoscar.aio import alru_cache
    from functools import partial
    cid = op["cache"]
    if cid in _caches:
        return _caches[cid]
    cfg = op["cfg"]

    async def body(args, kw):
        global _eid
        _eid += 1
        e, o = _eid, _cur_op.get()
        rec("exec", eid=e, cid=cid, by=o["rid"], key=repr((args, sorted(kw.items()))))
        st = "cancelled"
        try:
            if o.get("a") is not None:
                try:
                    await refs[o["a"]].do(o["rid"], o["ms"])
                except Exception as ex:
                    st = "err"
                    raise AppError(f"exec {e}", e) from ex
            elif o["ms"]:
                await asyncio.sleep(o["ms"] / 1000)
            if o["out"] == "err":
                st = "err"
                raise AppError(f"exec {e}", e)
            if o["out"] == "canc":
                st = "self-cancelled"
                raise asyncio.CancelledError(f"exec {e}")
            st = "ok"
            return [e, None]
        finally:
            rec("exec_end", eid=e, st=st)

    if cfg["form"] == "method":
        class C:
            @alru_cache(maxsize=cfg["max"], typed=cfg["typed"], cache_exceptions=cfg["cexc"])
            async def f(self, *args, **kw):
                return await body(args, kw)
        w, obj = C.f, C()
        call = lambda a, k: obj.f(*a, **k)
        inval = lambda a, k: w.invalidate(obj, *a, **k)
    elif cfg["form"] == "partial":
        async def g(zero, *args, **kw):
            return await body(args, kw)
        w = alru_cache(partial(g, 0), maxsize=cfg["max"], typed=cfg["typed"], cache_exceptions=cfg["cexc"])
        call, inval = (lambda a, k: w(*a, **k)), (lambda a, k: w.invalidate(*a, **k))
    else:
        async def f(*args, **kw):
            return await body(args, kw)
        if cfg == {"form": "bare", "max": 128, "typed": False, "cexc": True}:
            w = alru_cache(f)
        else:
            w = alru_cache(maxsize=cfg["max"], typed=cfg["typed"], cache_exceptions=cfg["cexc"])(f)
        call, inval = (lambda a, k: w(*a, **k)), (lambda a, k: w.invalidate(*a, **k))
    _caches[cid] = r = (w, call, inval)
    return r


def _key(op):
    conv = {"i": int, "f": float, "s": str, "b": bool}
    f = lambda x: conv[x[0]](x[1])
    return tuple(f(x) for x in op["args"]), {n: f(x) for n, x in op.get("kw", [])}


async def _cached(who, op, refs):
    w, call, _ = the_cache(op, refs)
    _cur_op.set(op)
    a, k = _key(op)
    # (nothing is suspended between the "use" record and the decision of the cache)
    rec("use", rid=op["rid"], cid=op["cache"])
    v = await call(a, k)
    rec("size", cid=op["cache"], n=w.cache_info().currsize)
    return v


async def _inval(who, op, refs):
    w, _, inval = the_cache(op, refs)
    a, k = _key(op)
    v = inval(a, k)
    rec("inval", rid=op["rid"], cid=op["cache"], v=v)
    return v


async def _clear(who, op, refs):
    w = the_cache(op, refs)[0]
    rec("clear", cid=op["cache"])
    w.cache_clear()


async def _cclose(who, op, refs):
    w = the_cache(op, refs)[0]
    rec("cclose", cid=op["cache"], cancel=op.get("canc", False), rid=op["rid"])
    await w.close(**({"cancel": True} if op.get("canc") else {}))
    rec("cclosed", cid=op["cache"], rid=op["rid"], n=w.cache_info().currsize)
    if op.get("reopen") is not None:
        if op["reopen"]:
            await asyncio.sleep(op["reopen"] / 1000)
        w.open()
        rec("copen", cid=op["cache"])


OPS.update(cached=_cached, inval=_inval, clear=_clear, cclose=_cclose)


# ------------------------------------------------------------- channels and rogues (P19)
def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def crafted(x):
    """Payloads for channels."""
    if x is None:
        return None
    kind, n, seed = x
    if kind == "za":  # arrays without elements, of several dimensions, transposed
        return [np.empty((0, 3)), np.arange(n * 6, dtype="i2").reshape(3, 2, n).T, np.array(seed), [], b"", {}]
    if kind == "mv":  # many small buffers
        return [np.full(3, (seed + i) % 256, dtype="u1") for i in range(min(n, 150))]
    if kind == "ba":
        return bytearray(payload("b", n, seed))
    return payload(kind, n, seed)


async def chan_side(side, ch, spec, tag):
    """Sends what the plan says over a channel, receives whatever comes."""
    me = f"{side}{tag}"

    async def sender(s):
        if s.get("at"):
            await asyncio.sleep(s["at"] / 1000)
        for q, m in enumerate(s["msgs"]):
            rec("csend", side=side, tag=tag, s=s["s"], q=q)
            try:
                t = asyncio.ensure_future(ch.send([s["s"], q, crafted(m)]))
                if s.get("cancel") and q == s["cancel"][0]:
                    asyncio.get_running_loop().call_later(s["cancel"][1] / 1000, t.cancel)
                await t
            except asyncio.CancelledError:
                rec("csent", side=side, tag=tag, s=s["s"], q=q, st="cancelled")
                continue
            except Exception as e:
                rec("csent", side=side, tag=tag, s=s["s"], q=q, st="err", et=type(e).__name__,
                    mro=[c.__name__ for c in type(e).__mro__], em=str(e)[:100])
                return
            rec("csent", side=side, tag=tag, s=s["s"], q=q, st="ok")
            if s.get("gap"):
                await asyncio.sleep(s["gap"] / 1000)

    other = {m["s"]: m for m in spec["senders"] if m["side"] != side}

    async def receiver(i):
        while True:
            try:
                v = await ch.recv()
            except asyncio.CancelledError:
                raise
            except BaseException as e:
                rec("crecv_end", side=side, tag=tag, et=type(e).__name__, mro=[c.__name__ for c in type(e).__mro__],
                    em=str(e)[:100])
                return
            ok, s, q = False, None, None
            if isinstance(v, list) and len(v) == 3 and v[0] in other and isinstance(v[1], int):
                s, q = v[0], v[1]
                ok = 0 <= q < len(other[s]["msgs"]) and same(v[2], crafted(other[s]["msgs"][q]))
            rec("crecv", side=side, tag=tag, s=s, q=q, ok=ok, em="" if ok else repr(v)[:200])
            if spec.get("slow"):
                await asyncio.sleep(spec["slow"] / 1000)

    async def receiving(i):
        try:
            await receiver(i)
        except asyncio.CancelledError:
            # a client within the process ends its handler when it closes
            rec("crecv_end", side=side, tag=tag, et="CancelledError", mro=["EOFError"] if side == "S" else [], em="")
            raise

    rs = [asyncio.ensure_future(receiving(i)) for i in range(spec.get("receivers", 1))]
    ss = [asyncio.ensure_future(sender(s)) for s in spec["senders"] if s["side"] == side]
    if spec.get("close", {}).get("side") == side:
        async def closer():
            await asyncio.sleep(spec["close"]["at"] / 1000)
            rec("closing", side=side, tag=tag)
            try:
                await ch.close()
            except OSError:
                pass
        ss.append(asyncio.ensure_future(closer()))
    for t in ss:
        await t
    rec("csenders_done", side=side, tag=tag)
    return rs


async def chan_server(spec, address):
    from xoscar.backends.communication import get_server_type
    n = [0]
    tags = {}

    async def handler(ch):
        # a connection says first which one it is
        try:
            tag = await ch.recv()
        except Exception as e:
            rec("no_tag", et=type(e).__name__)
            return
        tags[tag] = ch
        rs = await chan_side("S", ch, spec["conns"][tag], tag)
        await asyncio.gather(*rs, return_exceptions=True)
        rec("handler_end", tag=tag)

    st = get_server_type(address)
    server = await st.create({"address": address, "handle_channel": handler})
    await server.start()
    return server


async def chan_client(spec, tag, address):
    from xoscar.backends.communication import get_client_type
    c = await get_client_type(address).connect(address)
    ch = c.channel
    ch.compression = spec["conns"][tag].get("compress")
    await ch.send(tag)
    rs = await chan_side("C", ch, spec["conns"][tag], tag)
    return c, rs


async def frame(obj, compress=0):
    from xoscar.serialization import AioSerializer
    return b"".join(bytes(b) for b in await AioSerializer(obj, compress=compress).run())


def head(body, version=1, length=None):
    import struct
    return struct.pack("B", version) + struct.pack("<Q", len(body) if length is None else length) + b"\0\0" + body


async def bad_frame(kind, seed):
    """Bytes no peer of ours would send.  Returns (bytes, can it be recognised at once)."""
    import cloudpickle
    r = __import__("random").Random(seed)
    good = await frame([seed, {"x": np.arange(20)}])
    if kind == "version":
        return bytes([r.choice([0, 2, 71, 255])]) + good[1:], True
    if kind == "http":
        return b"GET / HTTP/1.1\r\nHost: node\r\n\r\n", True
    if kind == "noise":
        b = bytes(r.randrange(256) for _ in range(r.choice([11, 12, 40, 300])))
        return bytes([r.choice([0, 9, 200])]) + b[1:], True
    if kind == "short":  # fewer than a header
        return good[:r.randrange(1, 11)], False
    if kind == "huge":  # a header that announces more than will ever come
        return head(b"x" * r.choice([0, 5, 2000]), length=r.choice([1 << 20, 1 << 40, (1 << 63) - 1, (1 << 64) - 1])), False
    if kind == "nopickle":
        return head(r.choice([b"", b"garbage", b"\x80\x05.", b"\x80\x05]", b"cno_module\nx\n.", b"N", b"\xff" * 30])), True
    hs = {"nolist": [None, 5, {}, [], (), [5], [None], "abc", [{}], [[]], [{"buf_sizes": None}],
                     [{"buf_sizes": [-1], "is_cuda_buffers": [False]}],
                     [{"buf_sizes": ["3"], "is_cuda_buffers": [False]}],
                     [{"buf_sizes": [2], "is_cuda_buffers": None}]],
          "noserializer": [[{"buf_sizes": [], "is_cuda_buffers": [], "_N": 1}, (987654321, None, 0, True, 1)],
                           [{"buf_sizes": [], "is_cuda_buffers": []}, None],
                           [{"buf_sizes": [], "is_cuda_buffers": []}],
                           [{"buf_sizes": [], "is_cuda_buffers": []}, (1, 2, 3)],
                           [{"buf_sizes": [], "is_cuda_buffers": []}, (32105, (77, b"x"), 0, True, 1)]]}[kind]
    return head(cloudpickle.dumps(r.choice(hs))), True


async def odd_message(kind, rid):
    """Well-formed frames with a meaning no peer would give them."""
    from xoscar.backends import message as M
    ref = xo.create_actor_ref("10.0.0.1:1", b"nobody")
    mk = {
        "none": lambda: None,
        "int": lambda: rid,
        "dict": lambda: {"message_id": rid},
        "result": lambda: M.ResultMessage(M.new_message_id(), [rid]),
        "error": lambda: M.ErrorMessage(M.new_message_id(), "x", 1, ValueError, ValueError("x"), None),
        "cancel": lambda: M.CancelMessage(M.new_message_id(), "10.0.0.1:1", b"x" * 32),
        "noactor": lambda: M.SendMessage(M.new_message_id(), ref, ("do", 0, (rid,), {})),
        "content": lambda: M.SendMessage(M.new_message_id(), xo.create_actor_ref("10.0.0.1:1", b"a0"), ("no_such", 0, (), {})),
        "content2": lambda: M.SendMessage(M.new_message_id(), xo.create_actor_ref("10.0.0.1:1", b"a0"), None),
        "has": lambda: M.HasActorMessage(M.new_message_id(), ref),
        "destroy": lambda: M.DestroyActorMessage(M.new_message_id(), ref),
        "forward": lambda: M.ForwardMessage(M.new_message_id(), "10.0.0.1:1", M.SendMessage(
            M.new_message_id(), ref, ("do", 0, (rid,), {}))),
        "control": lambda: M.ControlMessage(M.new_message_id(), "10.0.0.1:1", M.ControlMessageType.get_config, "no_such_thing"),
        "unload": lambda: M.SendMessage(M.new_message_id(), xo.create_actor_ref("10.0.0.1:1", b"a0"),
                                        ("do", 0, (rid,), {"pay": NoUnpickle(rid)})),
    }[kind]()
    return await frame(mk)


async def rogue_client(spec, targets, pools):
    """Connects to a pool and misbehaves."""
    from xoscar.backends import message as M
    from xoscar.backends.communication.utils import read_buffers
    from xoscar.serialization import AioDeserializer, deserialize
    n = spec["n"]
    await asyncio.sleep(spec.get("at", 0) / 1000)
    a = targets[spec["a"]]
    host, port = a[0].rsplit(":", 1)
    try:
        reader, writer = await asyncio.open_connection(host, int(port))
    except OSError as e:
        rec("rogue_refused", n=n, em=str(e))
        return
    rec("rogue_up", n=n)
    ids = {}

    async def read():
        d = AioDeserializer(reader)
        try:
            while True:
                h = await d.get_header()
                m = deserialize(h, await read_buffers(h, reader))
                rec("rogue_got", n=n, rid=ids.get(m.message_id), m=type(m).__name__)
        except BaseException as e:
            rec("rogue_eof", n=n, et=type(e).__name__)
    rd = asyncio.ensure_future(read())

    async def put(b):
        size = spec.get("chunk")
        try:
            for i in range(0, len(b), size or len(b) or 1):
                writer.write(b[i:i + (size or len(b))])
                if size:
                    await asyncio.sleep(spec.get("gap", 0.05) / 1000)
            await writer.drain()
        except OSError:
            return

    for j, f in enumerate(spec["frames"]):
        if f["k"] == "call":
            m = M.SendMessage(M.new_message_id(), xo.create_actor_ref(a[0], a[1].encode()),
                              (f.get("m", "do"), 0, (f["rid"],), {"pay": payload(*f["pay"])} if f.get("pay") else {}))
            ids[m.message_id] = f["rid"]
            b = await frame(m, f.get("compress", 0))
        elif f["k"] == "odd":
            b = await odd_message(f["o"], f["rid"])
        elif f["k"] == "bad":
            b, sure = await bad_frame(f["o"], f["seed"])
        if "cut" in f:  # a truncated frame, always the last
            b = b[:min(len(b) - 1, max(1, int(len(b) * f["cut"])))]
        await put(b)
        rec("rogue_sent", n=n, j=j)
        if f.get("gap"):
            await asyncio.sleep(f["gap"] / 1000)
    await asyncio.sleep(spec.get("stay", 0) / 1000)
    rec("rogue_end", n=n, how=spec["end"])
    if spec["end"] == "abort":
        writer.transport.abort()
    elif spec["end"] == "close":
        writer.close()
    elif spec["end"] == "half":
        try:
            writer.write_eof()
        except OSError:
            pass
    await kernel.K.sim.event("stop").wait()
    rd.cancel()


async def rogue_server(host, port, acts):
    """Listens like a pool; answers as the plan says."""
    from xoscar.backends import message as M
    from xoscar.backends.communication.utils import read_buffers
    from xoscar.serialization import AioDeserializer, deserialize
    nconn = [0]
    ws = {}  # keeps its order

    async def conn(reader, writer):
        nconn[0] += 1
        c = nconn[0]
        ws[writer] = 1
        rec("rs_conn", c=c)
        d = AioDeserializer(reader)
        ts = set()

        async def answer(m, rid, act):
            if act.get("ms"):
                await asyncio.sleep(act["ms"] / 1000)
            good = await frame(M.ResultMessage(m.message_id, [rid, "r", payload(*act["pay"]) if act.get("pay") else None]))
            k = act["k"]
            b, end = b"", None
            if k == "ok":
                b = good
            elif k == "twice":
                b = good + good
            elif k == "foreign":  # answers what was never asked
                b = await frame(M.ResultMessage(M.new_message_id(), [rid, "r", None]))
            elif k == "trunc":
                b, end = good[:max(1, int(len(good) * act["cut"]))], act["end"]
                b = b[:len(good) - 1]
            elif k == "end":
                end = act["end"]
            elif k == "bad":
                b, _ = await bad_frame(act["o"], act["seed"])
            elif k == "okbad":
                b = good + (await bad_frame(act["o"], act["seed"]))[0]
            elif k == "odd":
                b = await frame({"none": None, "int": rid, "dict": {"message_id": m.message_id},
                                 "has": M.HasActorMessage(m.message_id, xo.create_actor_ref("10.0.0.1:1", b"x"))}[act["o"]])
            elif k == "silent":
                pass
            # one write per answer
            rec("rs_answer", c=c, rid=rid, act=k, o=act.get("o"))
            try:
                size = act.get("chunk")
                if size and len(ts) == 1:
                    for i in range(0, len(b), size):
                        writer.write(b[i:i + size])
                        await asyncio.sleep(0.0002)
                elif b:
                    writer.write(b)
                await writer.drain()
                rec("rs_done", c=c, rid=rid)
            except OSError:
                pass
            if end == "abort":
                writer.transport.abort()
            elif end == "close":
                writer.close()
        last = None
        try:
            while True:
                h = await d.get_header()
                m = deserialize(h, await read_buffers(h, reader))
                if isinstance(m, M.SendMessage):
                    rid = m.content[2][0]
                    rec("rs_request", c=c, rid=rid)

                    async def chain(prev, m=m, rid=rid):  # answers do not overlap
                        if prev is not None:
                            await asyncio.gather(prev, return_exceptions=True)
                        await answer(m, rid, acts[str(rid)])
                    last = asyncio.ensure_future(chain(last))
                    ts.add(last)
                    last.add_done_callback(ts.discard)
        except BaseException as e:
            rec("rs_eof", c=c, et=type(e).__name__)
        finally:
            writer.close()

    await asyncio.start_server(conn, host, port)
    return ws


async def _rcall(who, op, refs):
    v = await xo.create_actor_ref(op["addr"], b"r").do(op["rid"])
    want = payload(*op["act"]["pay"]) if op["act"].get("pay") else None
    if not isinstance(v, list) or len(v) != 3 or v[0] != op["rid"] or v[1] != "r" or not same(v[2], want):
        return {"bad": f"{v!r:.200}"}
    return v[:2]


OPS["rcall"] = _rcall
