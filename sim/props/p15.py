"""P15: delayed messages are delivered once, never early; cancelled ones never."""
from ..kernel import MS, SEC
from ..world import Violation
from . import common as C

RUNS = {"quick": 700, "thorough": 20000}
IMAGES = 20
NEED = {"delivered": 20, "cancelled before due": 5, "cancelled after due": 1, "target vanished": 1,
        "delivered after a clock jump": 1}
BOUND_S = 8


def gen(rng, tier, i):
    plan = C.gen_topology(rng, npools=(1, 2), nact=(1, 3), ncall=(2, 4), stateless=0.3)
    plan["knobs"] = C.swarm(rng)
    ops = []
    for _ in range(rng.randint(5, 30)):
        a = rng.randrange(len(plan["actors"]))
        if rng.random() < 0.72:
            dl = rng.choice([0, 0.5, 2, 10, 10, 40, 150, 1500])
            o = {"k": "delay", "a": a, "m": rng.choice(["do", "do", "sdo", "free"]), "delay": dl,
                 "pay": C.gen_pay(rng, False)}
            r = rng.random()
            if r < 0.2:
                o["dcancel"] = round(dl * rng.choice([0, 0.3, 0.8, 0.99]), 3)
            elif r < 0.3:
                o["dcancel"] = round(dl + rng.choice([0, 0.01, 0.1, 1, 10]), 3)
            elif r < 0.37:
                o["err"] = "app"
        else:
            o = {"k": "send", "a": a, "m": rng.choice(["do", "sdo", "free"]), "ms": rng.choice([0, 0, 1, 8, 60])}
        if o["k"] == "delay" and o["m"] != "sdo":
            o["ms"] = rng.choice([0, 0, 1, 20])
        o["c"] = rng.randrange(len(plan["callers"]))
        if rng.random() < 0.6:
            o["at"] = round(rng.random() * 40, 2)
        ops.append(o)
    C.mainrefs(rng, ops)
    C.number(ops)
    plan["ops"] = ops
    plan["faults"] = []
    r = rng.random()
    if r < 0.35:
        plan["faults"] = C.fault_calls(rng, plan, rng.randint(1, 3), kinds=("clock", "clock", "stop"))
    elif r < 0.6:
        plan["faults"] = C.fault_calls(rng, plan, rng.randint(1, 2),
                                       kinds=("kill", "reset", "partition", "clock", "stop", "killmain"))
        for p in plan["pools"]:
            p["kw"] = {"auto_recover": rng.choice([False, "actor"])}
    plan["deadline"] = 30
    plan["settle"] = 2.0
    plan["probe_actors"] = True
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    fl = H.kind("fault")
    hard = [f for f in fl if f["kind"] in ("kill", "reset", "partition")]
    slow = sum(f.get("for_ms", 0) for f in plan["faults"]) * MS
    end = H.kind("finish")[0]["i"] if H.kind("finish") else 1 << 60
    exits = {r["pid"] for r in H.kind("proc_exit") if r["i"] < end}
    home = {r["uid"]: r["pid"] for r in H.kind("actor_up")}
    clock = any(f["kind"] == "clock" for f in fl)
    for o in C.leaf_ops(plan["ops"]):
        cl, r = H.calls.get(o["rid"]), H.rets.get(o["rid"])
        if cl is None:
            continue
        d = f"{o['k']} {o['m']} {o['rid']} to a{o['a']}"
        ss = H.starts.get(o["rid"], [])
        if len(ss) > 1:
            out.append(Violation("ran twice", f"{d} ran {len(ss)} times"))
        if cl["pid"] in exits:
            continue
        if r is None:
            out.append(Violation("hang", f"{d} never ended", op=o["k"]))
            continue
        if o["k"] == "send":
            if r["st"] != "ok" and not hard:
                out.append(Violation("bystander", f"{d} gave {r['st']} {r.get('et')} {r.get('em')}", et=r.get("et")))
            continue
        due = cl["t"] + int(o["delay"] * MS)
        cc = H.cancels.get(o["rid"])
        if ss and ss[0]["t"] < due - 2000:
            out.append(Violation("early", f"{d}, delayed by {o['delay']} ms, started {(due - ss[0]['t']) / MS:.3f} ms "
                                 "early"))
        if cc is not None and cc["t"] < due:
            if ss:
                out.append(Violation("delivered though cancelled", f"{d} was cancelled {(due - cc['t']) / MS:.3f} ms "
                                     "before it was due, yet it ran"))
            else:
                sim.probe("cancelled before due")
            continue
        if cc is not None:
            sim.probe("cancelled after due")
            continue
        if hard:
            if home.get(f"a{o['a']}") in exits and not ss:
                sim.probe("target vanished")
            continue
        if r["st"] != "ok":
            out.append(Violation("failed", f"{d} gave {r['st']} {r.get('et')} {r.get('em')}", et=r.get("et")))
        elif not ss:
            out.append(Violation("lost", f"{d} was never delivered"))
        else:
            sim.probe("delivered")
            if clock:
                sim.probe("delivered after a clock jump")
            late = ss[0]["t"] - due
            if late > BOUND_S * SEC + slow:
                out.append(Violation("late", f"{d} started {late / SEC:.1f} s after it was due"))
    for r in H.kind("probe_actor"):
        if r["st"] != "ok" and not hard:
            out.append(Violation("actor stuck", f"actor {r['uid']} no longer answers: {r['em']}"))
    return out
