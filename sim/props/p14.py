"""P14: a batch call gives what the individual calls would give, in order, under one lock acquisition."""
from ..world import Violation
from . import common as C

RUNS = {"quick": 900, "thorough": 25000}
IMAGES = 20
NEED = {"batch ok": 20, "batch failed with a member's error": 5, "empty batch": 1, "single batch": 1,
        "told batch": 1, "cancelled batch": 1}

KINDS = ["bplain", "bplain", "bsync", "bown", "bown", "bsown", "bfree", "bmix", "bmix", "bsmix", "bnone", "bsnone"]
SEQ = ("bsync", "bown", "bsown", "bmix", "bsmix", "bnone", "bsnone")  # members run one after another
OWN = ("bown",)


def member(rng, m):
    if m == "bmix":
        if rng.random() < 0.3:
            return {"args": [], "kws": {"x": rng.randrange(50), **({"k": 9} if rng.random() < 0.5 else {})}}
        return {"args": [rng.randrange(50) for _ in range(rng.randint(1, 4))],
                "kws": {n: rng.randrange(99) for n in ("k", "za", "zb") if rng.random() < 0.35}}
    if m == "bsmix":
        n = rng.randint(0, 2)
        kws = {x: rng.randrange(99) for x in ("x", "y", "k")[n:] if rng.random() < 0.4}
        return {"args": [rng.randrange(50) for _ in range(n)], "kws": kws}
    if m in ("bnone", "bsnone"):
        return {}
    o = {"ms": rng.choice([0, 0, 1, 5]), "pay": C.gen_pay(rng, False)}
    if rng.random() < 0.1:
        o["out"] = C.gen_pay(rng, False)
    return o


def gen_op(rng, plan):
    a = rng.randrange(len(plan["actors"]))
    m = rng.choice(KINDS)
    r = rng.random()
    if r < 0.65:
        o = {"k": "batch", "a": a, "m": m,
             "items": [member(rng, m) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5, 9]))]}
        if o["items"] and m in ("bplain", "bsync", "bown", "bsown", "bfree") and rng.random() < 0.25:
            for x in rng.sample(o["items"], min(len(o["items"]), rng.choice([1, 1, 2]))):
                x["err"] = rng.choice(["app", "value", "key"])
        if rng.random() < 0.15:
            o["tellb"] = 1
        elif rng.random() < 0.12:
            o["cancel"] = rng.choice([0, 0.3, 1, 3, 8])
    elif r < 0.85:
        o = {"k": "send", "a": a, "m": m, **member(rng, m)}
    else:
        o = {"k": "send", "a": a, "m": rng.choice(["do", "sdo", "free"]), "ms": rng.choice([0, 1, 4])}
    return o


def gen(rng, tier, i):
    plan = C.gen_topology(rng, npools=(1, 2), nact=(1, 3), ncall=(2, 4), stateless=0.25)
    plan["knobs"] = C.swarm(rng)
    ops = []
    for _ in range(rng.randint(4, 24)):
        o = gen_op(rng, plan)
        o["c"] = rng.randrange(len(plan["callers"]))
        if rng.random() < 0.6:
            o["at"] = round(rng.random() * 30, 2)
        ops.append(o)
    C.mainrefs(rng, ops)
    C.number(ops)
    plan["ops"] = ops
    plan["faults"] = []
    if rng.random() < 0.25:
        plan["faults"] = C.fault_calls(rng, plan, rng.randint(1, 2), kinds=("reset", "stop", "kill", "clock"))
        for p in plan["pools"]:
            p["kw"] = {"auto_recover": False}
    plan["deadline"] = 25
    plan["settle"] = 1.5
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    hard = bool(H.kind("fault")) and any(f["kind"] in ("kill", "reset") for f in H.kind("fault"))
    exits = {r["pid"] for r in H.kind("proc_exit") if r["cause"] == "fault"}
    member_of = {}
    for o in C.leaf_ops(plan["ops"]):
        for x in o.get("items", ()):
            member_of[x["rid"]] = o
    for o in C.leaf_ops(plan["ops"]):
        cl, r, cc = H.calls.get(o["rid"]), H.rets.get(o["rid"]), H.cancels.get(o["rid"])
        if cl is None:
            continue
        isb = o["k"] == "batch"
        d = (f"batch of {len(o['items'])} {o['m']}" if isb else o["m"]) + f" {o['rid']} on a{o['a']}"
        if r is None:
            if cl["pid"] not in exits and not hard:
                out.append(Violation("hang", f"{d} never ended", m=o["m"]))
            continue
        told = o.get("tellb")
        if r["st"] == "ok" and isinstance(r["v"], dict) and "bad" in r["v"]:
            out.append(Violation("wrong result", f"{d}: {r['v']['bad']}", m=o["m"]))
            continue
        items = o["items"] if isb else [o]
        errs = [x for x in items if x.get("err")]
        ns = [len([s for s in H.starts.get(x["rid"], []) if not s.get("rids")]) for x in items]
        if any(n > 1 for n in ns):
            out.append(Violation("ran twice", f"{d}: members ran {ns} times", m=o["m"]))
        calm = not hard and cc is None
        if not told:
            if r["st"] == "ok":
                if errs:
                    out.append(Violation("error lost", f"{d} succeeded although member {errs[0]['rid']} failed", m=o["m"]))
                elif any(n != 1 for n in ns):
                    out.append(Violation("not run", f"{d} succeeded, its members ran {ns} times", m=o["m"]))
                elif isb:
                    sim.probe("batch ok")
                    sim.probe({0: "empty batch", 1: "single batch"}.get(len(items), "longer batch"))
            elif r["st"] == "err":
                txt = [f"{x['err']}:{x['rid']}" for x in errs]
                if isb and o["m"] in SEQ:
                    txt = txt[:1]
                if any(t in r["em"] for t in txt):
                    if isb:
                        sim.probe("batch failed with a member's error")
                elif calm:
                    out.append(Violation("wrong error", f"{d} failed with {r['et']} {r['em'][:120]}, expected "
                                         f"{txt or 'a result'}", m=o["m"]))
            elif r["st"] == "cancelled":
                if cc is None and not hard:
                    out.append(Violation("wrong error", f"{d}, which nobody cancelled, was cancelled", m=o["m"]))
                sim.probe("cancelled batch")
        else:
            sim.probe("told batch")
        if calm and isb:
            want = [1] * len(items)
            if errs and o["m"] in SEQ:
                k = items.index(errs[0]) + 1
                want = [1] * k + [0] * (len(items) - k)
            if ns != want and reason != "time limit":
                out.append(Violation("not run", f"the members of {d} ran {ns} times, expected {want}", m=o["m"]))
    # one lock acquisition: nothing locked runs on the actor between the members
    spans = {}
    for rid, ss in H.starts.items():
        b = member_of.get(rid)
        if b is None or plan["actors"][b["a"]]["cls"] != "T" or b["m"] == "bfree":
            continue
        for s in ss:
            e = next((x for x in H.ends.get(rid, []) if x["i"] > s["i"]), None)
            lo, hi = spans.get((b["rid"], s["inst"]), (s["i"], s["i"]))
            spans[(b["rid"], s["inst"])] = (min(lo, s["i"]), max(hi, e["i"] if e else s["i"]))
    others = {}
    for s in H.kind("start"):
        if s["m"] not in ("free", "bfree", "bown.batch"):
            others.setdefault(s["inst"], []).append(s)
    for (b, inst), (lo, hi) in sorted(spans.items()):
        for s in others.get(inst, ()):
            if lo < s["i"] < hi and (member_of.get(s["rid"]) or {}).get("rid") != b:
                out.append(Violation("lock released", f"{s['m']} {s['rid']} ran on actor {s['uid']} between the "
                                     f"members of batch {b}"))
                break
        else:
            if hi - lo > 1:
                sim.probe("batch alone on its actor")
    return out
