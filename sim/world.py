"""A run: hosts, processes, faults and the recorded history, built from one plan."""
import asyncio
import gc
import importlib
import json
import os
import random
import sys
import traceback

from . import images, kernel, net, osl
from .kernel import MS, SEC, US


class Violation:
    def __init__(self, cls, msg, **kw):
        self.cls, self.msg, self.kw = cls, msg, kw

    def to_json(self):
        return {"cls": self.cls, "msg": self.msg, **self.kw}


class HEvent:
    """A harness-side event that coroutines of any simulated process can await."""

    def __init__(self):
        self.done = False
        self.value = None
        self.waiters = []

    def set(self, value=None):
        if self.done:
            return
        self.done = True
        self.value = value
        ws, self.waiters = self.waiters, []
        for loop, fut in ws:
            if not loop.is_closed() and not loop.proc.dead:
                loop.call_soon_threadsafe(_wake, fut, value)

    async def wait(self):
        if self.done:
            return self.value
        loop = asyncio.get_running_loop()
        fut = loop.create_future()
        self.waiters.append((loop, fut))
        return await fut


def _wake(fut, value):
    if not fut.done():
        fut.set_result(value)


class Sim:
    def __init__(self, plan):
        self.plan = plan
        self.toks = []  # values whose life is watched
        self.k = kernel.K = kernel.Kernel(plan["seed"], plan.get("knobs", {}))
        self.k.net = net.Net(self.k)
        self.k.sim = self
        self.hosts = []
        self.events = {}
        self.procs = {}
        self.waiting = set()
        self.ended = False
        self.notes = []
        self.probes = {}
        self.k.syscall_hook = self._on_record
        self.triggers = []
        self.fault_log = []
        self.pools = {}
        self.targets = []
        self.ref_bytes = {}
        self.proxies = None  # address -> the proxies references to it carry (P16)

    # -------------------------------------------------------------- topology
    def host(self, i):
        while len(self.hosts) <= i:
            n = len(self.hosts)
            h = kernel.Host(self.k, f"node{n}", f"10.0.0.{n + 1}")
            for d in ("/xsim", "/xsim/home", "/xsim/tmp"):
                h.fs[d] = ("dir", None)
            h.wall0 += n * 0.37
            h.mono0 += n * 977.0
            self.k.hosts[h.name] = h
            self.hosts.append(h)
        return self.hosts[i]

    def proc(self, host, role, corofn, *args, env=None, must_finish=True):
        """A user process running asyncio.run(corofn(ctx, *args))."""
        k = self.k
        e = dict(osl.install.base_env)
        for a, b in (env or {}).items():
            e[a.encode()] = str(b).encode()
        for a, b in self.plan.get("knobs", {}).get("env", {}).items():
            e[a.encode()] = str(b).encode()
        p = k.new_proc(self.host(host), role, None, e)
        self.procs[role] = p
        if must_finish:
            self.waiting.add(role)

        def main():
            osl.take_image(p)
            ctx = Ctx(self, p)
            try:
                asyncio.run(corofn(ctx, *args))
            except asyncio.CancelledError:
                self.harness_error(f"{role} cancelled")
            except Exception:
                self.harness_error(f"{role}: {traceback.format_exc()}")
            finally:
                if not p.dead:
                    self.waiting.discard(role)
                    self._maybe_end()
            osl.main_exit(p)

        k.new_thread(p, main, "main", delay=k.orng.randrange(1, 5000) * US, main=True)
        return p

    def harness_error(self, msg):
        self.notes.append(msg)
        self.k.record("harness_error", msg=msg)
        if self.k.knobs.get("verbose"):
            print("HARNESS", msg, file=sys.stderr)

    def _maybe_end(self):
        if not self.waiting and not self.ended:
            self.ended = True
            # let what is left over run a little, then stop
            self.k.after(int(self.plan.get("linger", 0.5) * SEC), self.k.finish, "done")

    def dead_role(self, role):
        self.waiting.discard(role)
        self._maybe_end()

    def event(self, name):
        e = self.events.get(name)
        if e is None:
            e = self.events[name] = HEvent()
        return e

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # ---------------------------------------------------------------- faults
    def arm(self, faults=None):
        for f in (self.plan.get("faults", []) if faults is None else faults):
            trg = f.get("trigger", {})
            if "on" in trg:
                self.triggers.append([f, trg["on"], trg.get("nth", 1)])
            else:
                base = self.k.now if trg.get("rel", True) else 0
                t = base + int(trg.get("at_ms", 0) * MS)
                self.k.push(max(t, self.k.now), self._fire, (f,))

    def _on_record(self, rec):
        if rec["k"] == "proc_exit":
            p = self.k.procs[rec["pid"]]
            if p.role in self.waiting and self.procs.get(p.role) is p and rec["cause"] != "exit":
                self.waiting.discard(p.role)
                self._maybe_end()
        for tr in self.triggers:
            f, on, n = tr
            if n > 0 and all(rec.get(a) == b for a, b in on.items()):
                tr[2] = n - 1
                if n == 1:
                    d = f["trigger"].get("delay_us", 0) * US
                    self.k.after(d, self._fire, f)

    def _target(self, t):
        """Process a fault is aimed at, or None."""
        k = self.k
        if isinstance(t, str):
            return self.procs.get(t)
        if "child_of" in t:
            p = self.procs.get(t["child_of"])
            if p is None:
                return None
            ch = [c for c in p.children if not c.dead]
            return ch[t.get("n", 0) % len(ch)] if ch else None
        if "actor" in t:
            for r in reversed(k.history):
                if r["k"] == "actor_up" and r.get("uid") == t["actor"]:
                    return k.procs[r["pid"]]
            return None
        if "pid" in t:
            return k.procs.get(t["pid"])

    def _fire(self, f):
        k = self.k
        kind = f["kind"]
        lim = self.plan.get("faults_until_ms")
        if lim is not None and k.now > getattr(self, "t_go", 0) + lim * MS:
            k.counters["fault skipped:late"] += 1
            return
        p = self._target(f["target"]) if "target" in f else None
        if kind in ("kill", "stop", "cont"):
            if p is None or p.dead:
                k.counters[f"fault skipped:{kind}"] += 1
                return
            if p.parent is None and not f.get("main_ok") and p.role not in f.get("ok", ()):
                if isinstance(f["target"], dict):
                    # an actor that lives in the main process: leave it
                    k.counters[f"fault skipped:{kind}"] += 1
                    return
        if kind == "kill":
            k.counters["SIGKILL"] += 1
            k.record("fault", kind="kill", pid=p.pid, role=p.role)
            k.signal(p, 9, "fault")
        elif kind == "stop":
            k.counters["SIGSTOP"] += 1
            k.record("fault", kind="stop", pid=p.pid)
            p.stopped = True
            if f.get("for_ms"):
                k.after(int(f["for_ms"] * MS), self._cont, p)
        elif kind == "partition":
            a, b = self.host(f["a"]), self.host(f["b"])
            k.record("fault", kind="partition", a=a.name, b=b.name)
            k.net.partition(a, b)
            if f.get("for_ms"):
                k.after(int(f["for_ms"] * MS), self._heal, a, b)
        elif kind == "reset":
            cs = [(a, b) for a, b in k.net.conns
                  if a.host is not b.host and not a.closed and not b.closed and a.state == "est"
                  and ("host" not in f or self.host(f["host"]) in (a.host, b.host))]
            if cs:
                c = cs[f.get("n", 0) % len(cs)]
                k.record("fault", kind="reset", a=str(c[0].laddr), b=str(c[0].raddr))
                net.reset_connection(k, c)
            else:
                k.counters["fault skipped:reset"] += 1
        elif kind == "clock":
            h = self.host(f["host"])
            k.counters["clock jump"] += 1
            k.record("fault", kind="clock", host=h.name, by=f["by_s"])
            h.wall0 += f["by_s"]
        elif kind == "refuse":
            h = self.host(f["host"])
            k.net.refuse[(h.name, f["port"])] = k.now + int(f["for_ms"] * MS)
        elif kind == "event":
            self.event(f["name"]).set()
        elif kind == "knob":
            k.record("fault", kind="knob", name=f["name"])
            k.knobs[f["name"]] = f["v"]
            k.after(int(f["for_ms"] * MS), k.knobs.pop, f["name"], None)
        else:
            raise ValueError(kind)

    def _cont(self, p):
        self.k.cont(p)
        self.k.record("fault", kind="cont", pid=p.pid)

    def _heal(self, a, b):
        self.k.net.heal(a, b)
        self.k.record("fault", kind="heal", a=a.name, b=b.name)


class Ctx:
    """What a user process's coroutine gets."""

    def __init__(self, sim, proc):
        self.sim, self.p, self.k = sim, proc, sim.k

    @property
    def xo(self):
        return sys.modules["xoscar"]

    @property
    def A(self):
        return sys.modules["simactors"]

    @property
    def now(self):
        return self.k.now

    def rec(self, _k, **kw):
        return self.k.record(_k, pid=self.p.pid, **kw)

    async def call(self, op, awaitable, **kw):
        """Await with start/end records; returns (status, value)."""
        i = self.rec("call", op=op, **kw)
        try:
            v = await awaitable
        except asyncio.CancelledError:
            self.rec("ret", op=op, st="cancelled", **kw)
            if asyncio.current_task().cancelling():
                raise
            return "cancelled", None
        except BaseException as e:
            self.rec("ret", op=op, st="err", et=type(e).__name__, em=str(e)[:300], **kw)
            return "err", e
        self.rec("ret", op=op, st="ok", v=v if _plain(v) else repr(type(v)), **kw)
        return "ok", v


def _plain(v, d=0):
    if v is None or isinstance(v, (int, str, float, bool)):
        return True
    if isinstance(v, (list, tuple)) and d < 3 and len(v) < 100:
        return all(_plain(x, d + 1) for x in v)
    return False


def run_plan(plan, out, wall=90):
    """In a forked child: execute the plan; the result goes to `out` as JSON."""
    gc.disable()
    sys.setswitchinterval(1000)
    scen = importlib.import_module("sim.props." + plan["scenario"])
    sim = Sim(plan)
    k = sim.k

    def on_finish(reason):
        if ENV_TASKS:
            dump_tasks(k)
        res = {"reason": reason, "violations": [], "harness": [], "events": k.nevents,
               "sim_s": k.now / 1e9, "hash": f"{k.h & (2**64 - 1):016x}",
               "counters": dict(k.counters), "nhist": len(k.history)}
        if reason == "event limit":
            res["harness"].append("event limit reached")
        for v in scen.check(sim, plan, k.history, reason):
            res["violations"].append(v.to_json())
        res["harness"] += sim.notes
        res["probes"] = sim.probes
        res["shape"] = getattr(sim, "shape", None) or shape(k.history)
        res["thread_errors"] = k.thread_errors[:20]
        if plan.get("keep_history"):
            res["history"] = k.history
        out(json.dumps(res, default=repr).encode())

    k.on_finish = on_finish
    k.on_fatal = lambda m: out(json.dumps({"harness": [m], "violations": []}).encode())
    osl.set_random(plan["seed"])
    scen.setup(sim, plan)
    import _thread
    _thread.start_new_thread(k._dispatch, (None,))
    osl.real.sleep(wall)
    out(json.dumps({"violations": [], "harness": [], "stuck": True, "reason": "wall"}).encode())
    os.kill(os.getpid(), 9) if kernel.K is None else osl.real.exit(0)


def dump_tasks(k):
    """For debugging (XSIM_TASKS=1): what every live process waits for."""
    ts = [o for o in gc.get_objects() if isinstance(o, asyncio.Task) and not o.done()]
    for o in ts:
        out = []
        c = o.get_coro()
        while c is not None:
            f = getattr(c, "cr_frame", None) or getattr(c, "ag_frame", None)
            if f is None:
                break
            out.append(f"{os.path.basename(f.f_code.co_filename)}:{f.f_lineno} {f.f_code.co_name}")
            c = getattr(c, "cr_await", None)
        lp = o.get_loop()
        print("TASK", getattr(getattr(lp, "proc", None), "pid", "?"), o.get_name(), o.cancelling(), " < ".join(out),
              file=sys.stderr)


ENV_TASKS = os.environ.get("XSIM_TASKS")


def shape(history):
    """Order-type of the history: what happened in which order, without times and pids."""
    h = 0
    for r in history:
        h = (h * 1000003 ^ (hash_str(r["k"]) + 31 * hash_str(str(r.get("op", r.get("uid", "")))))) & (2**64 - 1)
    return f"{h:016x}"


_hs = {}


def hash_str(s):
    v = _hs.get(s)
    if v is None:
        import zlib
        v = _hs[s] = zlib.crc32(s.encode())
    return v
