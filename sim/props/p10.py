"""P10: stopping or losing a pool leaves no process behind."""
import asyncio

from ..kernel import MS, SEC
from ..world import Violation
from . import common as C

RUNS = {"quick": 900, "thorough": 30000}
IMAGES = 20
NEED = {"pool stopped": 50, "main lost": 50, "start-up failed": 30, "start-up cancelled": 10,
        "main lost while starting": 10, "stopped while a process was being replaced": 5,
        "started again": 20}
STOP_S = 30  # longest stop() may take
GONE_S = 20  # until when processes must have ended


def gen(rng, tier, i):
    mode = rng.choice(["stop", "stop", "stop", "kill", "exit", "start", "start", "start"])
    n = rng.randint(1, 4)
    plan = {"mode": mode, "pools": [{"host": 0, "n": n, "kw": {
        "auto_recover": rng.choice(["actor", "actor", "process", False])}}], "actors": [], "callers": [], "ops": []}
    plan["knobs"] = C.swarm(rng, heavy=False)
    if rng.random() < 0.4:
        plan["knobs"]["spawn_ms"] = rng.choice([[1, 10], [300, 1500]])
    if rng.random() < 0.3:
        plan["knobs"]["no_prctl"] = True
    plan["again"] = rng.random() < 0.4
    if mode == "start":
        return gen_start(rng, plan, n)
    if mode == "stop" and plan["again"]:
        plan["pools"][0]["again"] = True
    noprctl = plan["knobs"].get("no_prctl")
    for j in range(rng.randint(1, 4)):
        plan["actors"].append({"pool": 0, "slot": rng.randrange(n + 1)})
    for w in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.4:
            c = {"who": w, "at": "actor", "pool": 0, "slot": rng.randrange(n + 1)}
        elif r < 0.6:
            c = {"who": w, "at": "main", "pool": 0}
        else:
            c = {"who": w, "at": "client", "host": rng.choice([0, 3])}
        plan["callers"].append(c)
    span = rng.choice([5, 100, 1500, 3000])
    ops = []
    for x in range(rng.randint(2, 14)):
        r = rng.random()
        j = rng.randrange(len(plan["actors"]))
        if r < 0.6:
            o = {"k": "send", "a": j, "m": rng.choice(["do", "free", "busy", "sdo"])}
            # the main process itself is not the one that hangs
            o["ms"] = rng.choice([0, 10, 1000, 20000, 60000]) if o["m"] != "busy" else \
                rng.choice([10, 1000, 8000, 40000]) if plan["actors"][j]["slot"] else 1
        elif r < 0.75:
            o = {"k": "create", "uid": f"u{x}", "pool": 0, "slot": rng.randrange(n + 1),
                 "kw": {"create_ms": rng.choice([0, 50, 3000])}}
        elif r < 0.85:
            o = {"k": "waitrec", "pool": 0, "slot": rng.randrange(1, n + 1), "uids": []}
        else:
            o = {"k": "kill", "uid": f"a{j}", "pool": 0, "slot": plan["actors"][j]["slot"]}
        o["c"] = rng.randrange(len(plan["callers"]))
        o["at"] = round(rng.random() * span, 2)
        ops.append(o)
    C.number(ops)
    plan["ops"] = ops
    fs = []

    def trigger():
        if rng.random() < 0.5:
            return {"at_ms": round(rng.random() * span, 3)}
        return {"on": {"k": rng.choice(["start", "end", "call", "ret", "hook_create", "fault", "spawn", "proc_exit"])},
                "nth": rng.randint(1, 6), "delay_us": rng.choice([0, 30, 1000, 50000, 300000, 600000])}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        kd = rng.choice(["kill", "kill", "stop", "partition"])
        f = {"kind": kd, "target": {"child_of": "main0", "n": rng.randrange(4)}, "trigger": trigger()}
        if kd == "stop":
            # without a death signal a process that is stopped for good cannot notice anything
            f["for_ms"] = rng.choice([50, 1000, 4000]) if mode != "stop" and noprctl else \
                rng.choice([50, 1000, 4000, 9000, 60000])
        elif kd == "partition":
            f = {"kind": "partition", "a": 0, "b": rng.choice([3, C.CTL]), "for_ms": rng.choice([50, 2000]),
                 "trigger": trigger()}
        fs.append(f)
    if mode == "stop":
        plan["pools"][0]["stop_on"] = "stop0"
        e = {"kind": "event", "name": "stop0"}
    elif mode == "exit":
        plan["pools"][0]["exit_on"] = "stop0"
        e = {"kind": "event", "name": "stop0"}
    else:
        e = {"kind": "kill", "target": "main0", "main_ok": True}
    fs.append(dict(e, trigger=trigger()))
    fs.append(dict(e, trigger={"at_ms": span + rng.choice([0, 700])}))
    if mode == "stop" and rng.random() < 0.25:
        fs.append({"kind": "kill", "target": {"child_of": "main0", "n": rng.randrange(4)},
                   "trigger": {"on": {"k": "stopping"}, "nth": 1, "delay_us": rng.choice([0, 50, 1000, 30000])}})
    plan["faults"] = fs
    plan["deadline"] = span / 1000 + 1.5
    plan["settle"] = 0
    plan["after"] = "p10"
    return plan


def gen_start(rng, plan, n):
    """The pool fails to start, is given up, or is lost while it starts."""
    how = rng.choice(["kill", "kill", "fail", "fail", "fail", "cancel", "port", "subport", "module"])
    plan["how"] = how
    k = plan["knobs"]
    k.setdefault("spawn_ms", rng.choice([[1, 10], [30, 400], [300, 1500]]))
    fs = []
    if how == "kill":
        trg = {"at_ms": round(rng.random() * rng.choice([30, 600, 2500]), 3)}
        if rng.random() < 0.5:
            trg = {"on": rng.choice([{"k": "spawn"}, {"k": "listen"}]), "nth": rng.randint(1, n),
                   "delay_us": rng.choice([0, 10, 500, 5000, 50000, 200000])}
        fs.append({"kind": "kill", "target": "main0", "main_ok": True, "trigger": trg})
        fs.append({"kind": "kill", "target": "main0", "main_ok": True, "trigger": {"at_ms": 5000}})
    elif how == "fail":
        k[rng.choice(["spawn_fail_p", "spawn_die_p"])] = rng.choice([0.2, 0.5, 1.0])
        if rng.random() < 0.3:
            fs.append({"kind": "kill", "target": {"child_of": "main0", "n": rng.randrange(n)}, "trigger": {
                "on": {"k": "spawn"}, "nth": rng.randint(1, n), "delay_us": rng.choice([0, 3000, 50000, 500000])}})
    elif how == "cancel":
        plan["cancel_ms"] = round(rng.random() * rng.choice([30, 600, 2500]), 3)
    elif how == "subport":
        plan["pools"][0]["kw"]["ports"] = [7100 + x for x in range(n)]
        plan["blocked"] = 7100 + rng.randrange(n)
    elif how == "port":
        plan["blocked"] = 7000
    else:
        plan["pools"][0]["kw"]["modules"] = ["no_such_module_here"]
    if rng.random() < 0.15:
        fs.append({"kind": "stop", "target": {"child_of": "main0", "n": rng.randrange(n)},
                   "for_ms": rng.choice([100, 2000]), "trigger": {"at_ms": round(rng.random() * 500, 2)}})
    plan["faults"] = fs
    return plan


def setup(sim, plan):
    if plan["mode"] != "start":
        return C.setup_calls(sim, plan)
    spec = plan["pools"][0]

    async def main(ctx):
        xo = ctx.xo
        if plan.get("blocked"):
            await asyncio.start_server(lambda r, w: None, C.ip(0), plan["blocked"])

        async def go():
            return await xo.create_actor_pool(C.addr_of(plan, 0), n_process=spec["n"], **spec["kw"])
        t = asyncio.ensure_future(go())
        sim.t_go = ctx.now
        sim.arm()
        if plan.get("cancel_ms") is not None:
            sim.k.after(int(plan["cancel_ms"] * MS), sim.event("cancel").set)

            async def canc():
                await sim.event("cancel").wait()
                if not t.done():
                    ctx.rec("cancel")
                    t.cancel()
            c = asyncio.ensure_future(canc())
        ctx.rec("starting")
        await asyncio.wait([t], timeout=60)
        if not t.done():
            ctx.rec("start_hangs")
        elif t.cancelled() or t.exception() is not None:
            e = None if t.cancelled() else t.exception()
            ctx.rec("start_failed", et=type(e).__name__, em=str(e)[:300])
            if plan.get("again") and plan["how"] in ("fail", "cancel", "subport", "module"):
                await C.again(ctx, sim, plan, 0)
        else:
            ctx.rec("started", pids=[p.pid for p in t.result().sub_processes.values()])
            await asyncio.sleep(0.5)
            await ctx.call("pool_stop", t.result().stop(), pool=0)
            if plan.get("again"):
                await C.again(ctx, sim, plan, 0)
        ctx.rec("over")
        await sim.event("stop").wait()

    p = sim.proc(0, "main0", main)

    async def coord(ctx):
        for _ in range(400):
            await asyncio.sleep(0.25)
            if p.dead or any(r["k"] == "over" for r in sim.k.history[-50:]):
                break
        await gone(ctx, sim, p)
        sim.event("stop").set()
        sim.k.after(GONE_S * SEC, sim.k.finish, "done")
    sim.proc(C.CTL, "coord", coord)


async def gone(ctx, sim, main):
    """Wait till main's children are gone."""
    for _ in range(GONE_S * 4):
        if all(c.dead for c in sim.k.procs.values() if c.parent is main):
            break
        await asyncio.sleep(0.25)
    ctx.rec("left", pids=[c.pid for c in sim.k.procs.values() if c.parent is main and not c.dead])


async def after(ctx, sim, plan):
    p = sim.pools[0]["proc"]
    last = "again" if plan.get("again") and plan["mode"] == "stop" else "ret"
    for _ in range(STOP_S * 4 + (100 if last == "again" else 20)):
        if p.dead or any(r["k"] == last and r["op"] == "pool_stop" for r in sim.k.history):
            break
        await asyncio.sleep(0.25)
    await gone(ctx, sim, p)
    sim.event("stop").set()
    # the main process must end, too
    for _ in range(120):
        if p.dead:
            break
        await asyncio.sleep(0.25)


C.AFTER["p10"] = after


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, "x" if plan["mode"] == "start" else reason)
    if out:
        return out
    main = sim.procs["main0"]
    exits = {r["pid"]: r for r in H.kind("proc_exit")}
    kids = [r for r in H.kind("spawn") if r["parent"] == main.pid]
    end = hist[-1]["t"]
    mend = exits.get(main.pid)
    failed, started = H.kind("start_failed"), H.kind("started")
    if plan["mode"] == "start":
        what = f"start-up ({plan['how']})"
        if H.kind("start_hangs"):
            return [Violation("start hangs", f"{what} did not end within 60 s", how=plan["how"])]
        if plan["how"] == "kill":
            sim.probe("main lost while starting" if not started or started[0]["t"] > mend["t"] else "main lost")
        elif failed:
            sim.probe("start-up cancelled" if plan["how"] == "cancel" else "start-up failed")
            if plan["how"] == "cancel" and failed[0]["et"] != "NoneType" and H.kind("cancel"):
                out.append(Violation("odd error", f"{what}: {failed[0]['et']} {failed[0]['em']}"))
        if not failed and not started and mend is None:
            out.append(Violation("no-progress", f"{what}: neither started nor failed ({reason})"))
        if failed and plan["how"] in ("kill",):
            pass
        if started and plan["how"] in ("port", "module"):
            out.append(Violation("odd start", f"{what} succeeded"))
    stop = next((r for r in H.kind("call") if r["op"] == "pool_stop"), None)
    ret = next((r for r in H.kind("ret") if r["op"] == "pool_stop"), None)
    t0 = None
    ag = next(iter(H.kind("again")), None)
    since = min((r["i"] for r in H.kind("again_start")), default=1 << 60)
    kids = [r for r in kids if r["i"] < since]
    if ag is not None and not any(r["i"] > since for r in H.kind("fault")):
        sim.probe("started again")
        if ag["st"] != "ok":
            out.append(Violation("not usable again", f"after it was {'stopped' if ret else 'not started'}, a pool could "
                                 f"not be used at the same address: {ag['em']}", et=ag["et"]))
    if mend is None and (ret is not None or failed) and plan["knobs"].get("shm_full_p") is None:
        names = sorted(main.host.shm)
        if names:
            out.append(Violation("shared memory", f"shared memory was left behind: {names}"))
    if ret is not None:
        sim.probe("pool stopped")
        if any(stop["i"] > r["i"] and (exits.get(r["pid"]) or ret)["i"] > stop["i"] and not any(
                x["i"] > r["i"] and x["k"] == "ret" for x in ()) for r in kids[plan["pools"][0]["n"]:]):
            sim.probe("stopped while a process was being replaced")
        if ret["st"] != "ok":
            out.append(Violation("stop failed", f"stop() ended with {ret.get('et')} {ret.get('em')}", et=ret.get("et")))
        t0 = ret["t"] + SEC // 2
        if ret["t"] - stop["t"] > STOP_S * SEC:
            out.append(Violation("stop slow", f"stop() took {(ret['t'] - stop['t']) / 1e9:.1f} s"))
    elif stop is not None and (mend is None or mend["cause"] == "exit"):
        out.append(Violation("stop hangs", f"stop() had not ended after {(end - stop['t']) / 1e9:.1f} s"))
    if t0 is None and failed:
        t0 = failed[0]["t"] + GONE_S * SEC
    if mend is not None and (t0 is None or mend["t"] < t0):
        sim.probe("main lost")
        t0 = mend["t"] + GONE_S * SEC
    if t0 is None:
        return out
    for r in kids:
        x = exits.get(r["pid"])
        if (x["t"] if x else end + 1) > t0 and end > t0:
            p = sim.k.procs[r["pid"]]
            out.append(Violation("left behind: " + plan.get("how", plan["mode"]), f"process {r['pid']}, started at {r['t'] / 1e9:.3f} s, "
                                 + ("is still there" if x is None else f"ended only at {x['t'] / 1e9:.3f} s")
                                 + f" (due {t0 / 1e9:.3f} s; mode {plan.get('how', plan['mode'])})",
                                 ))
    for r in kids:
        if ret is not None and r["i"] > ret["i"]:
            out.append(Violation("started after stop", f"process {r['pid']} was started after stop() had ended"))
    if plan["mode"] == "stop" and ret is not None and mend is None:
        out.append(Violation("main stays", "the main process did not end after its pool was stopped"))
    return out


RULE = ("seeded random runs; each process of a pool must have ended by a deadline after stop() returned, after the "
        "main process was lost or after a failed start-up, and stop() must end without an error within a bound")
ASSUME = ["A process that is stopped with SIGSTOP for good and for which no parent death signal works is not required "
          "to end when the main process is lost."]
REAL = "xoscar's pool, process, watch-dog, communication and actor code; asyncio subprocess code"
