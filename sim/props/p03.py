"""P03: one caller's messages to one actor are started in the order they were issued."""
from ..world import Violation
from . import common as C

RUNS = {"quick": 700, "thorough": 20000}
IMAGES = 20
NEED = {"ordered sequential": 1, "ordered concurrent": 1, "slow payload": 1}

LOCKED = ["do", "do", "sdo", "bplain", "bown"]


def one(rng, a, big):
    r = rng.random()
    ms = rng.choice([0, 0, 0, 1, 4])
    if r < 0.45:
        o = {"k": "send", "a": a, "m": rng.choice(LOCKED), "ms": ms}
    elif r < 0.8:
        o = {"k": "tell", "a": a, "m": rng.choice(LOCKED), "ms": ms}
    elif r < 0.9:
        o = {"k": rng.choice(["send", "tell"]), "a": a, "m": "free", "ms": ms}
    else:
        o = {"k": "batch", "a": a, "m": rng.choice(["bplain", "bown"]),
             "items": [{"ms": rng.choice([0, 1])} for _ in range(rng.randint(1, 3))]}
    if o["k"] != "batch":
        r = rng.random()
        if r < 0.35:
            o["pay"] = [rng.choice(["b", "a", "s", "f"]), rng.choice([0, 10, 300, 3000]), rng.randrange(99)]
        elif r < 0.45 and big:
            o["pay"] = ["l", 300, rng.randrange(99)]  # serialized in a worker thread
        if rng.random() < 0.06:
            o["err"] = "app"
    return o


def gen(rng, tier, i):
    plan = C.gen_topology(rng, nact=(1, 3), ncall=(1, 3), clients=False, stateless=0.25)
    plan["knobs"] = C.swarm(rng)
    plan["cold"] = rng.random() < 0.4
    ops = []
    for c in plan["callers"]:
        for a in range(len(plan["actors"])):
            if rng.random() < 0.25:
                continue
            # opens the connection; without it, several calls may be waiting for the same connection
            seq = [] if plan["cold"] else [{"k": "send", "a": a, "m": "do"}]
            for _ in range(rng.randint(1, 5)):
                if rng.random() < 0.6:
                    seq.append({"k": "par", "ops": [one(rng, a, True) for _ in range(rng.randint(2, 7))]})
                else:
                    seq.append(one(rng, a, True))
            for s in seq:
                s["c"] = c["who"]
                for x in s.get("ops", []):
                    x["c"] = c["who"]
            ops.append({"k": "seq", "c": c["who"], "ops": seq})
    C.number(ops)
    plan["ops"] = ops
    plan["faults"] = []
    if rng.random() < 0.5:
        plan["faults"] = C.fault_calls(rng, plan, rng.randint(1, 2),
                                       kinds=("stop", "stop", "partition", "clock", "reset"))
    plan["deadline"] = 25
    plan["settle"] = 2.0
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


def slow(o):
    return bool(o.get("pay")) and o["pay"][0] == "l"


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    lossy = any(f["kind"] == "reset" for f in plan.get("faults", []))
    home = {r["uid"]: r["pid"] for r in H.kind("actor_up")}
    groups = {}
    opened = {}  # by process of the caller and of the actor: since when there is a connection
    for o in C.leaf_ops(plan["ops"]):
        cl, r = H.calls.get(o["rid"]), H.rets.get(o["rid"])
        if cl is not None and r is not None and r["st"] == "ok":
            x = cl["pid"], home.get(f"a{o['a']}")
            opened[x] = min(opened.get(x, r["i"]), r["i"])
    for o in C.leaf_ops(plan["ops"]):
        cl = H.calls.get(o["rid"])
        if cl is None:
            continue
        rid = o["items"][0]["rid"] if o["k"] == "batch" else o["rid"]
        ss = [s for s in H.starts.get(rid, []) if not s.get("rids")]
        if len(ss) != 1:
            continue  # never started (or more than once: P01's subject)
        lock = "free" if o["m"] == "free" else "locked"
        if plan["actors"][o["a"]]["cls"] == "TS":
            if o["k"] == "batch" and o["m"] == "bplain":
                continue  # without a lock its members are tasks, which start a little later
            lock = "any"
        groups.setdefault((o["c"], o["a"], lock), []).append((cl["i"], ss[0]["i"], o, H.rets.get(o["rid"])))
    for (c, a, lock), xs in sorted(groups.items(), key=str):
        xs.sort(key=lambda x: x[0])
        for j, (ic, js, o, r) in enumerate(xs):
            for ic2, js2, o2, r2 in xs[j + 1:]:
                if r is not None and r["st"] in ("ok", "err") and r["i"] < ic2:
                    if r["st"] == "err" and r["et"] != "AppError":
                        continue  # lost: it may still be on its way
                    how = "sequential"
                elif (o["k"] == "tell") != (o2["k"] == "tell") and \
                        H.calls[o["rid"]]["pid"] == home.get(f"a{a}"):
                    continue  # inside one process there is no connection: a tell starts a task of its own
                elif ic < opened.get((H.calls[o["rid"]]["pid"], home.get(f"a{a}")), 1 << 60):
                    continue  # on no connection yet
                elif lossy or slow(o) or slow(o2):
                    if slow(o):
                        sim.probe("slow payload")
                    continue
                else:
                    how = "concurrent"
                if js2 < js:
                    out.append(Violation("reordered", f"caller {c} issued {o['k']} {o['rid']} before "
                                         f"{o2['k']} {o2['rid']} to a{a} ({how}), but the actor started "
                                         f"{o2['rid']} first", how=how))
                    if len(out) > 3:
                        return out
                else:
                    sim.probe("ordered " + how)
    return out
