"""Topologies, swarm knobs and history oracles shared by the scenarios."""
import asyncio
import gc
import sys

from .. import kernel
from ..kernel import MS, SEC, US
from ..world import Violation

CTL = 9  # host index of the coordinator's own host


# --------------------------------------------------------------------------- knobs
def swarm(rng, faulty=True, max_time=120, heavy=True):
    """A random subset of environment features, at random strength."""
    k = {"max_time": max_time}
    k["lat_us"] = rng.choice([20, 150, 150, 1000, 5000])
    k["jit_us"] = rng.choice([10, 300, 2000])
    k["cost_us"] = rng.choice([2, 20, 20, 150])
    if heavy and rng.random() < 0.3:
        k["mss"] = rng.choice([1448, 200])
    if heavy and rng.random() < 0.25:
        k["sndbuf"] = rng.choice([4096, 16384])
    if rng.random() < 0.4:
        k["frag_p"] = rng.choice([0.02, 0.1, 0.4])
    if rng.random() < 0.3:
        k["spike_p"] = rng.choice([0.01, 0.1])
        k["spike_ms"] = rng.choice([5, 80, 400])
    if rng.random() < 0.35:
        k["stall_p"] = rng.choice([0.001, 0.01, 0.05])
        k["stall_max_ms"] = rng.choice([5, 50, 300])
    if rng.random() < 0.3:
        k["exec_delay_p"] = 0.3
        k["exec_delay_ms"] = rng.choice([2, 20, 100])
    env = {}
    if rng.random() < 0.12:
        env["DEBUG_OSCAR"] = "1"
    if rng.random() < 0.1:
        env["XOSCAR_CPU_AFFINITY"] = "1"
    if env:
        k["env"] = env
    return k


def ip(h):
    return f"10.0.0.{h + 1}"


def addr_of(plan, i):
    p = plan["pools"][i]
    return p.get("addr") or f"{ip(p['host'])}:{7000 + i}"


# ------------------------------------------------------------------------ topology
def pool_proc(sim, plan, i, after=None):
    """The main process of pool i."""
    spec = plan["pools"][i]

    async def main(ctx):
        xo = ctx.xo
        kw = dict(spec.get("kw", {}))
        if spec.get("hooks"):
            def down(pool, address):
                ctx.rec("on_down", pool=i, addr=address)
                if spec.get("hook_err") in ("down", "both"):
                    raise ValueError("on_process_down fails")

            def recov(pool, address):
                ctx.rec("on_recover", pool=i, addr=address)
                if spec.get("hook_err") in ("recover", "both"):
                    raise ValueError("on_process_recover fails")
            kw["on_process_down"], kw["on_process_recover"] = down, recov
        for w in spec.get("wait", ()):
            await sim.event(w).wait()
        try:
            pool = await xo.create_actor_pool(addr_of(plan, i), n_process=spec.get("n", 0), **kw)
        except Exception as e:
            ctx.rec("setup_failed", what=f"pool {i}", et=type(e).__name__, em=str(e)[:300])
            sim.event(f"pool{i}").set(None)
            return
        cfg = pool._config.as_dict() if hasattr(pool, "_config") else {}
        subs = [c["external_address"][0] for c in cfg.get("pools", {}).values()]
        subs = [pool.external_address] + [s for s in subs if s != pool.external_address]
        ctx.rec("pool_up", pool=i, addr=pool.external_address, subs=subs,
                pids=[c.pid for c in ctx.p.children])
        sim.pools[i] = {"addr": pool.external_address, "addrs": subs, "obj": pool, "proc": ctx.p}
        sim.event(f"pool{i}").set(pool.external_address)
        local = [c for c in plan.get("callers", []) if c["at"] == "main" and c["pool"] == i]
        if local:
            await sim.event("actors").wait()
        ts = [asyncio.ensure_future(ctx.A.run_caller(c["who"], sim.targets, _ops(plan, c["who"])))
              for c in local]
        if after is not None:
            await after(ctx, pool)
        if spec.get("stop_on"):
            async def stopper():
                await sim.event(spec["stop_on"]).wait()
                ctx.rec("stopping", pool=i)
                await ctx.call("pool_stop", pool.stop(), pool=i)
                if spec.get("again"):
                    await again(ctx, sim, plan, i)
            ts.append(asyncio.ensure_future(stopper()))
        if spec.get("exit_on"):
            await sim.event(spec["exit_on"]).wait()
            ctx.rec("leaving", pool=i)
            return
        await sim.event("stop").wait()
        if spec.get("stop"):
            await ctx.call("pool_stop", pool.stop(), pool=i)

    return sim.proc(spec["host"], f"main{i}", main, env=spec.get("env"))


async def again(ctx, sim, plan, i):
    """Use another pool at the address of one that is gone."""
    ctx.rec("again_start")
    for x in ("spawn_fail_p", "spawn_die_p", "shm_full_p"):
        sim.k.knobs.pop(x, None)
    try:
        pool = await ctx.xo.create_actor_pool(addr_of(plan, i), n_process=1)
        try:
            a = pool._config.get_external_addresses()[-1]
            r = await ctx.xo.create_actor(ctx.A.T, "again", uid="again", address=a)
            v = await r.do(-5)
            st, et, em = ("ok", "", "") if v[1] == "again" else ("err", "", f"value {v}")
        finally:
            await pool.stop()
    except Exception as e:
        st, et, em = "err", type(e).__name__, f"{type(e).__name__} {e}"[:300]
    ctx.rec("again", op="pool_stop", st=st, et=et, em=em)


def _ops(plan, who):
    return [o for o in plan["ops"] if o["c"] == who]


async def create_actors(ctx, sim, plan):
    """Create the plan's actors; fills sim.targets."""
    xo, A = ctx.xo, ctx.A
    sim.targets = []
    for j, a in enumerate(plan.get("actors", [])):
        p = sim.pools[a["pool"]]
        slot = a.get("slot", 0) % len(p["addrs"])
        addr = p["addrs"][slot]
        uid = a.get("uid", f"a{j}")
        try:
            ref = await xo.create_actor(getattr(A, a.get("cls", "T")), uid, *a.get("args", []),
                                        address=addr, uid=uid, **a.get("kw", {}))
        except Exception as e:
            ctx.rec("setup_failed", what=f"actor {uid}", et=type(e).__name__, em=str(e)[:300])
            return False
        got = ref.uid.decode() if isinstance(ref.uid, bytes) else str(ref.uid)
        if got != uid or ref.address != addr:
            ctx.rec("setup_failed", what=f"actor {uid}", et="", em=f"created as {got} at {ref.address}")
            return False
        sim.targets.append([addr, uid, p["addr"]])
    return True


def setup_calls(sim, plan, probe_after=True):
    """Pools, actors, callers; go; wait; settle; end."""
    sim.pools = {}
    sim.targets = []
    for i in range(len(plan["pools"])):
        pool_proc(sim, plan, i)

    for c in plan.get("callers", []):
        if c["at"] == "client" and c.get("with") is not None:
            continue  # a thread of another client's process
        if c["at"] == "client":
            async def client(ctx, c=c):
                await sim.event("actors").wait()
                more = [asyncio.ensure_future(ctx.A.run_caller(d["who"], sim.targets, _ops(plan, d["who"])))
                        for d in plan["callers"] if d.get("with") == c["who"]]
                await ctx.A.run_caller(c["who"], sim.targets, _ops(plan, c["who"]))
                await asyncio.gather(*more)
                await sim.event("stop").wait()
            sim.proc(c.get("host", 3), f"client{c['who']}", client)

    async def coord(ctx):
        xo, A = ctx.xo, ctx.A
        try:
            for i in range(len(plan["pools"])):
                if await sim.event(f"pool{i}").wait() is None:
                    return
            if not await create_actors(ctx, sim, plan):
                return
            whos = {}
            for c in plan.get("callers", []):
                if c["at"] == "actor":
                    p = sim.pools[c["pool"]]
                    ref = await xo.create_actor(A.Caller, uid=f"caller{c['who']}",
                                                address=p["addrs"][c["slot"] % len(p["addrs"])])
                    whos[c["who"]] = await ref.run(c["who"], sim.targets, _ops(plan, c["who"]))
            sim.event("actors").set()
            for c in plan.get("callers", []):
                await sim.event(f"ready:{c['who']}").wait()
            if plan.get("before_go"):
                await BEFORE[plan["before_go"]](ctx, sim, plan)
        except Exception as e:
            ctx.rec("setup_failed", what="callers", et=type(e).__name__, em=str(e)[:300])
            return
        sim.caller_pids = whos
        ctx.rec("go")
        sim.t_go = ctx.now
        sim.arm()
        sim.event("go").set()
        if plan.get("final_ms"):
            sim.k.after(int(plan["final_ms"] * MS), sim.event("final").set)
        deadline = plan.get("deadline", 30)
        evs = [f"done:{c['who']}" for c in plan.get("callers", [])]
        await wait_callers(sim, plan, whos, evs, deadline)
        if plan.get("quiet"):  # all faults first
            lim = sim.t_go + int(plan["faults_until_ms"] * MS)
            while sim.k.now <= lim:
                await asyncio.sleep(0.2)
        ctx.rec("callers_done")
        await asyncio.sleep(plan.get("settle", 1.0))
        if plan.get("probe"):
            await probe_pools(ctx, sim, plan)
        if plan.get("probe_actors"):
            await probe_actors(ctx, sim, plan, plan.get("probe_s", 20))
        if plan.get("probe_gens"):
            await probe_gens(ctx, sim, plan)
        if plan.get("after"):
            await AFTER[plan["after"]](ctx, sim, plan)
        ctx.rec("finish")
        for i in plan.get("stop_first", []):
            pass

    async def coord_main(ctx):
        try:
            await coord(ctx)
        finally:
            sim.event("stop").set()

    sim.proc(CTL, "coord", coord_main)


BEFORE = {}  # hooks of scenarios, by name
AFTER = {}


async def wait_callers(sim, plan, whos, evs, deadline):
    k = sim.k
    end = k.now + int(deadline * SEC)
    while k.now < end:
        left = 0
        for c in plan.get("callers", []):
            if sim.event(f"done:{c['who']}").done:
                continue
            if c["at"] == "actor" and whos.get(c["who"]) is not None and k.procs[whos[c["who"]]].dead:
                continue
            if c["at"] == "main" and sim.pools[c["pool"]]["proc"].dead:
                continue
            left += 1
        if not left:
            return True
        await asyncio.sleep(0.05)
    return False


async def probe_pools(ctx, sim, plan):
    """After the faults: does every live process still serve?"""
    xo, A = ctx.xo, ctx.A
    for i, p in sorted(sim.pools.items()):
        if p["proc"].dead:
            continue
        for a in p["addrs"]:
            if a in getattr(sim, "down_addrs", ()):
                continue
            name = f"probe{i}_{a}"

            async def go():
                r = await xo.create_actor(A.T, name, uid=name, address=a)
                return await r.do(-1)
            st, v = await ctx.call("probe", asyncio.wait_for(go(), 20), pool=i, addr=a)


async def probe_actors(ctx, sim, plan, timeout=20):
    """Every actor whose process lives must accept one more call."""
    hosts = {}
    for r in sim.k.history:
        if r["k"] == "actor_up":
            hosts[r["uid"]] = r["pid"]

    async def one(j, addr, uid):
        p = sim.k.procs.get(hosts.get(uid))
        if p is None or p.dead:
            return
        try:
            if plan.get("dials"):  # directly
                ref = ctx.xo.create_actor_ref(addr, uid.encode())
            else:
                ref = await asyncio.wait_for(ctx.xo.actor_ref(address=addr, uid=uid), timeout)
            v = await asyncio.wait_for(ctx.xo.wait_for(ref.do(-100 - j), timeout), timeout + 1)
            st, em = ("ok", "") if v[1] == uid else ("err", f"value {v}")
        except Exception as e:
            st, em = "err", f"{type(e).__name__} {e}"[:200]
        if p.dead:
            return
        ctx.rec("probe_actor", uid=uid, st=st, em=em)

    await asyncio.gather(*[one(j, a, u) for j, (a, u, _) in enumerate(sim.targets)])


def gc_wrappers(sim):
    """Collects cyclic garbage; counts the generator handles that went away, per actor uid."""
    freed, saved = {}, []

    def on_del(self):
        if getattr(self, "_gc_destroy", False):
            u = self._actor_uid
            u = u.decode() if isinstance(u, bytes) else u
            freed[u] = freed.get(u, 0) + 1

    for p in sim.k.procs.values():
        img = getattr(p, "image", None)
        W = getattr(img and img.mods.get("xoscar.api"), "IteratorWrapper", None)
        if W is not None and "__del__" in vars(W):
            saved.append((W, vars(W)["__del__"]))
            W.__del__ = on_del
    gc.collect()
    for W, d in saved:
        W.__del__ = d
    return freed


async def probe_gens(ctx, sim, plan):
    """How many generators does each actor still hold?  The simulator runs no cyclic garbage
    collection, so what a collection would release (now) does not count."""
    freed = gc_wrappers(sim)
    for j, (addr, uid, _) in enumerate(sim.targets):
        try:
            ref = await asyncio.wait_for(ctx.xo.actor_ref(address=addr, uid=uid), 10)
            n = await asyncio.wait_for(ref.n_generators(), 10)
        except Exception as e:
            ctx.rec("gens_left", uid=uid, n=None, em=f"{type(e).__name__} {e}"[:200])
            continue
        ctx.rec("gens_left", uid=uid, n=max(0, n - freed.get(uid, 0)), freed=freed.get(uid, 0))


# --------------------------------------------------------------------- random plans
def gen_topology(rng, npools=(1, 2), nsub=(0, 3), nact=(1, 4), ncall=(2, 4), stateless=0.2,
                 main_callers=True, clients=True):
    n = rng.randint(*npools)
    pools = []
    for i in range(n):
        pools.append({"host": i, "n": rng.randint(*nsub)})
    actors = []
    for j in range(rng.randint(*nact)):
        actors.append({"pool": rng.randrange(n), "slot": rng.randrange(4),
                       "cls": "TS" if rng.random() < stateless else "TU" if rng.random() < 0.15 else "T"})
    callers = []
    for w in range(rng.randint(*ncall)):
        r = rng.random()
        if r < 0.6 or not (clients or main_callers):
            callers.append({"who": w, "at": "actor", "pool": rng.randrange(n), "slot": rng.randrange(4)})
        elif r < 0.8 and main_callers or not clients:
            callers.append({"who": w, "at": "main", "pool": rng.randrange(n)})
        else:
            callers.append({"who": w, "at": "client", "host": rng.choice([0, 3])})
    return {"pools": pools, "actors": actors, "callers": callers}


def gen_pay(rng, big=True):
    r = rng.random()
    if r < 0.55:
        return None
    kind = rng.choice(["b", "a", "l", "m", "bs", "s", "f"])
    n = rng.choice([0, 1, 7, 60, 300, 1500] + ([9000] if big else []))
    if kind == "l":
        n = min(n, 400)
    return [kind, n, rng.randrange(1000)]


# -------------------------------------------------------------------------- oracles
class Hist:
    """Indexes of one history."""

    def __init__(self, hist):
        self.calls, self.rets, self.starts, self.ends = {}, {}, {}, {}
        self.cancels = {}
        self.by_kind = {}
        self.go = None
        for r in hist:
            k = r["k"]
            self.by_kind.setdefault(k, []).append(r)
            if k == "call" and r.get("rid") is not None:
                self.calls[r["rid"]] = r
            elif k == "ret" and r.get("rid") is not None:
                # not those still waiting when the run (or their process) ended
                if r["st"] != "aborted" and "finish" not in self.by_kind:
                    self.rets[r["rid"]] = r
            elif k == "start":
                self.starts.setdefault(r["rid"], []).append(r)
            elif k == "end":
                self.ends.setdefault(r["rid"], []).append(r)
            elif k == "cancel":
                self.cancels.setdefault(r.get("rid"), r)
            elif k == "go":
                self.go = r
        self.h = hist

    def kind(self, k):
        return self.by_kind.get(k, [])


def leaf_ops(ops, out=None):
    """All leaf operations, and batch members with their parent."""
    out = [] if out is None else out
    for o in ops:
        if o["k"] in ("seq", "par"):
            for x in o["ops"]:
                x.setdefault("c", o.get("c"))
            leaf_ops(o["ops"], out)
        else:
            out.append(o)
    return out


def setup_violations(H, reason):
    out = []
    for r in H.kind("setup_failed"):
        out.append(Violation("setup", f"without any fault, {r['what']} failed: {r['et']} {r['em']}"))
    if reason in ("time limit", "event limit", "quiescent") and not H.kind("finish") and not out:
        out.append(Violation("no-progress", f"the run never got through ({reason}); "
                             f"{'workload started' if H.go else 'set-up hung'}"))
    return out


def fault_free(plan):
    return not plan.get("faults")


def number(ops, start=1):
    """Give every leaf its rid."""
    n = start
    for o in ops:
        if o["k"] in ("seq", "par"):
            n = number(o["ops"], n)
        elif o["k"] == "batch":
            o["rid"] = n
            n += 1
            for x in o["items"]:
                x["rid"] = n
                n += 1
        else:
            o["rid"] = n
            n += 1
            if o["k"] == "relay":
                o["rid2"] = n
                n += 1
            for key in ("steps",):
                if key in o:
                    n = _num_steps(o[key], n)
    return n


def _num_steps(steps, n):
    for s in steps:
        if s["k"] in ("call", "ycall", "own"):
            s["rid"] = n
            n += 1
        if s["k"] in ("ycall", "own"):
            n = _num_steps(s["steps"], n)
        if s["k"] == "tuple":
            n = _num_steps(s["items"], n)
    return n


def mainrefs(rng, ops, p=0.3):
    """Some runs address some actors through the main process of their pool."""
    if rng.random() < p:
        q = rng.choice([0.2, 0.6, 1.0])
        for o in leaf_ops(ops):
            if "a" in o and "via" not in o and rng.random() < q:
                o["mainref"] = True


def fault_calls(rng, plan, n, kinds=("kill", "reset", "stop", "partition", "clock"), span_ms=60):
    """Random faults aimed at a calls topology."""
    fs = []
    pools = plan["pools"]
    for _ in range(n):
        kd = rng.choice(kinds)
        if rng.random() < 0.5:
            trg = {"at_ms": round(rng.random() * span_ms, 3)}
        else:
            trg = {"on": {"k": rng.choice(["start", "end", "call", "ret"])},
                   "nth": rng.randint(1, 20), "delay_us": rng.choice([0, 30, 200, 1000])}
        i = rng.randrange(len(pools))
        if kd in ("kill", "stop"):
            f = {"kind": kd, "target": {"child_of": f"main{i}", "n": rng.randrange(4)}}
            if kd == "stop":
                f["for_ms"] = rng.choice([5, 50, 500, 3000])
        elif kd == "killmain":
            f = {"kind": "kill", "target": f"main{i}", "main_ok": True, "ok": [f"main{i}"]}
        elif kd == "reset":
            f = {"kind": "reset", "n": rng.randrange(8)}
        elif kd == "partition":
            a = rng.randrange(len(pools))
            b = rng.choice([x for x in list(range(len(pools))) + [3, CTL] if x != a])
            f = {"kind": "partition", "a": a, "b": b, "for_ms": rng.choice([5, 60, 700, 2500])}
        elif kd == "clock":
            f = {"kind": "clock", "host": rng.randrange(len(pools)),
                 "by_s": rng.choice([-3600, -5, 5, 7200, 1e6])}
        f["trigger"] = trg
        fs.append(f)
    return fs
