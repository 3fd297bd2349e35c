"""P25: finished calls leave nothing behind in a long-lived pool."""
import asyncio
import gc
import json

from ..world import Violation
from . import common as C

RUNS = {"quick": 1000, "thorough": 30000}
IMAGES = 20
NEED = {"values gone": 2000, "result": 300, "error": 100, "cancelled": 100, "lost": 20, "SIGKILL": 20,
        "connection reset": 20}

SPAN = 60
TASKS = 9  # ended tasks that are still referred to; 3 at most on the code as it is
LIMIT = 4  # connections from one process to another: callers, control and proxies share 2 at most


def gen_op(rng, na, faulty):
    a = rng.randrange(na)
    ms = rng.choice([0, 0, 0, 1, 5, 30])
    r = rng.random()
    if r < 0.5:
        o = {"k": "send", "a": a, "m": rng.choice(["do", "sdo", "free", "bplain", "bown"]), "ms": ms}
    elif r < 0.6:
        o = {"k": "tell", "a": a, "m": rng.choice(["do", "sdo", "free"]), "ms": ms}
    elif r < 0.75:
        o = {"k": "batch", "a": a, "m": rng.choice(["bplain", "bsync", "bown", "bsown"]),
             "items": [{"ms": rng.choice([0, 1]), "pay": pay(rng)} for _ in range(rng.randint(1, 4))]}
    elif r < 0.85:
        o = {"k": "wait", "a": a, "m": rng.choice(["do", "free"]), "ms": rng.choice([0, 5, 100]),
             "tmo": rng.choice([1, 20, 500])}
    elif r < 0.92:
        o = {"k": "delay", "a": a, "m": "do", "ms": ms, "delay": rng.choice([0, 5, 30])}
    else:
        o = {"k": "relay", "a": a, "b": rng.randrange(na), "ms": ms}
        if o["b"] <= a:
            o["tell"] = True
    if o["k"] in ("send", "tell", "wait", "delay"):
        o["pay"] = pay(rng)
        if rng.random() < 0.5:
            o["out"] = pay(rng)
        if rng.random() < 0.25:
            o["err"] = rng.choice(["tok", "tok", "app", "value", "nopickle", "nounpickle"])
        elif rng.random() < 0.1:
            o[rng.choice(["pay", "out"])] = [rng.choice(["nopickle", "nounpickle"]), 0, 0]
            o.pop("out" if o["pay"][0] != "t" else "none", None)
    if o["k"] in ("send", "batch", "wait", "relay") and rng.random() < 0.3:
        o["cancel"] = rng.choice([0, 0.2, 0.5, 2, 10, 30])
        if rng.random() < 0.3:
            o["onc"] = rng.choice(["slow", "err", "swallow"])
    return o


def pay(rng):
    return [rng.choice(["t", "t", "tl"]), rng.choice([0, 5, 3000]), rng.randrange(1000)]


def gen(rng, tier, i):
    plan = C.gen_topology(rng, nact=(1, 3), ncall=(1, 3), clients=False)
    plan["knobs"] = C.swarm(rng, heavy=False)
    ops = []
    plan["faults"] = []
    if rng.random() < 0.65:
        plan["faults"] = C.fault_calls(rng, plan, rng.randint(1, 3), kinds=("kill", "reset", "reset", "stop", "partition"))
    for c in plan["callers"]:
        for _ in range(rng.randint(3, 20)):
            o = gen_op(rng, len(plan["actors"]), plan["faults"])
            if rng.random() < 0.6:
                o["at"] = round(rng.random() * SPAN, 2)
            o["c"] = c["who"]
            ops.append(o)
    if rng.random() < 0.4:
        # what grows shows best when the same thing happens again and again
        o = gen_op(rng, len(plan["actors"]), plan["faults"])
        o["c"] = rng.choice(plan["callers"])["who"]
        n = rng.randint(15, 40)
        for j in range(n):
            ops.append({**json.loads(json.dumps(o)), "at": round(SPAN * j / n, 2)})
    C.mainrefs(rng, ops)
    C.number(ops)
    # what a process received last on a connection may stay until something else is received
    fl = []
    for c in plan["callers"]:
        x = [{"k": "send", "a": a, "m": "free", "c": c["who"], **mr} for a in range(len(plan["actors"]))
             for mr in ({}, {"mainref": True})]
        fl.append({"k": "seq", "c": c["who"], "on": "final", "ops": x + [dict(y) for y in x]})
    n = max(o["rid"] for o in C.leaf_ops(ops)) + 1000
    for s in fl:
        for o in s["ops"]:
            o["rid"] = n = n + 1
    plan["ops"] = ops + fl
    plan["final_ms"] = 14000
    plan["faults_until_ms"] = 8000
    plan["deadline"] = 40
    plan["settle"] = 1.5
    plan["after"] = "p25"
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


async def after(ctx, sim, plan):
    C.gc_wrappers(sim)
    live, n = {}, 0
    for pid, a, b, w in sim.toks:
        n += 1
        if w() is not None and not sim.k.procs[pid].dead:
            live.setdefault(pid, []).append([a, b])
    tasks = {}
    for o in gc.get_objects():
        if type(o).__name__ == "SimTask" and o.done() and o._simp is not None and not o._simp.dead:
            tasks[o._simp.pid] = tasks.get(o._simp.pid, 0) + 1
    conns = {}
    for a, b in sim.k.net.conns:
        pa, pb = a.p, b.p
        if not pa.dead and not pb.dead and pa.role != "coord":
            x = f"{pa.pid}-{pb.pid}"
            conns[x] = conns.get(x, 0) + 1
    ctx.rec("left", live={str(k): v for k, v in sorted(live.items())}, n=n, conns=conns, tasks={str(k): v for k, v in sorted(tasks.items())})


C.AFTER["p25"] = after


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    for r in H.rets.values():
        sim.probe({"ok": "result", "cancelled": "cancelled"}.get(r["st"]) or
                  ("lost" if r.get("et") in ("ServerClosed", "ConnectionRefusedError") else "error"))
    for r in H.kind("left"):
        n = sum(len(v) for v in r["live"].values())
        sim.probe("values gone", r["n"] - n)
        for pid, v in r["live"].items():
            out.append(Violation("kept", f"process {pid} still holds {len(v)} values of calls that are over, "
                                 f"e.g. {v[:3]}"))
        for pid, m in r["tasks"].items():
            if m > TASKS:
                out.append(Violation("tasks", f"process {pid} still holds {m} ended tasks after {len(H.rets)} calls"))
        m = max(r["conns"].values(), default=0)
        if m > LIMIT:
            out.append(Violation("connections", f"{m} connections from one process to another after "
                                 f"{len(H.rets)} calls: {r['conns']}"))
    return out


RULE = ("when all calls have ended and each connection has carried another one, no living process with a pool holds an "
        "argument, result or error of an ended call; there are at most 4 connections from one process to another")
REAL = "pools, callers, routers, channels, serialization, messages, actors; values are followed by weak references"
ASSUME = ["processes without a pool are left out: they open a connection per call, as xoscar warns",
          "a garbage collection of each process runs before the check"]
