"""P01: calls run at most once and each caller gets its own call's result."""
from ..world import Violation
from . import common as C

RUNS = {"quick": 700, "thorough": 20000}
IMAGES = 20
NEED = {"ok call": 1, "lost call": 1, "SIGKILL": 1, "connection reset": 1}

METHODS = ["do", "do", "sdo", "free", "bplain"]


def gen_ops(rng, plan, n):
    ops = []
    na, nc = len(plan["actors"]), len(plan["callers"])
    for _ in range(n):
        ops.append(gen_op(rng, na, rng.randrange(nc)))
    C.mainrefs(rng, ops)
    C.number(ops)
    return ops


def gen_op(rng, na, c, depth=0):
    r = rng.random()
    at = rng.choice([0, 0, 0, round(rng.random() * 30, 2)])
    a = rng.randrange(na)
    ms = rng.choice([0, 0, 0, 1, 3, 20])
    if r < 0.45:
        o = {"k": "send", "a": a, "m": rng.choice(METHODS), "ms": ms}
    elif r < 0.6:
        o = {"k": "tell", "a": a, "m": rng.choice(METHODS[:4]), "ms": ms}
    elif r < 0.75:
        o = {"k": "batch", "a": a, "m": rng.choice(["bplain", "bsync", "bown", "bsown"]),
             "items": [{"ms": rng.choice([0, 0, 1]), "pay": C.gen_pay(rng, False)}
                       for _ in range(rng.randint(1, 4))]}
    elif r < 0.82:
        o = {"k": "relay", "a": a, "b": rng.randrange(na), "ms": ms}
        if o["b"] <= a:
            o["tell"] = True  # waiting for each other from locked bodies would deadlock
    elif r < 0.87:
        o = {"k": "delay", "a": a, "m": "do", "ms": ms, "delay": rng.choice([0, 5, 30])}
    elif depth < 1:
        o = {"k": "seq", "ops": [gen_op(rng, na, c, 1) for _ in range(rng.randint(2, 4))]}
    else:
        o = {"k": "send", "a": a, "m": "do", "ms": ms}
    if o["k"] in ("send", "tell"):
        o["pay"] = C.gen_pay(rng)
        if rng.random() < 0.15:
            o["out"] = C.gen_pay(rng)
        if rng.random() < 0.08:
            o["err"] = "app"
        if o["k"] == "send" and rng.random() < 0.08:
            o["cancel"] = rng.choice([0, 0.3, 2, 10])
    o["c"] = c
    if at and depth == 0:
        o["at"] = at
    return o


def gen(rng, tier, i):
    plan = C.gen_topology(rng)
    plan["knobs"] = C.swarm(rng)
    plan["ops"] = gen_ops(rng, plan, rng.randint(8, 40))
    plan["faults"] = []
    if rng.random() < 0.6:
        plan["faults"] = C.fault_calls(rng, plan, rng.randint(1, 3))
    plan["deadline"] = 25
    plan["settle"] = 4.0
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    tags = {}
    for o in C.leaf_ops(plan["ops"]):
        a = f"a{o['a']}"
        tags[o["rid"]] = (a, o)
        if o["k"] == "batch":
            for x in o["items"]:
                tags[x["rid"]] = (a, {**x, "k": "item", "m": o["m"], "parent": o["rid"]})
        if o["k"] == "relay":
            tags[o["rid2"]] = (f"a{o['b']}", {"k": "inner", "parent": o["rid"], "m": "do"})
    execs = {rid: [s for s in ss if not s.get("rids")] for rid, ss in H.starts.items()}
    for rid, ss in execs.items():
        if rid < 0:
            continue
        if rid not in tags:
            out.append(Violation("phantom", f"execution of {rid}, which nobody issued"))
            continue
        want, o = tags[rid]
        if len(ss) > 1:
            out.append(Violation("duplicate", f"call {rid} ({o['k']} {o.get('m')}) ran {len(ss)} times",
                                 rid=rid))
        for s in ss:
            if s["uid"] != want:
                out.append(Violation("misdelivered", f"call {rid} for {want} ran on {s['uid']}"))
            top = o.get("parent", rid)
            c = H.calls.get(top)
            if c is None or c["i"] > s["i"]:
                out.append(Violation("phantom", f"call {rid} ran before it was issued"))
    faulty = not C.fault_free(plan)
    for rid, (want, o) in tags.items():
        r = H.rets.get(rid)
        n = len(execs.get(rid, []))
        if o["k"] in ("send", "relay", "batch"):
            if r is None:
                sim.probe("unfinished call")
                if not faulty:
                    out.append(Violation("hang", f"call {rid} ({o['k']} {o.get('m')}) never returned "
                                         "although nothing failed"))
                continue
            if r["st"] == "ok":
                sim.probe("ok call")
                v = r["v"]
                if isinstance(v, dict) and "bad" in v:
                    out.append(Violation("wrong value", f"call {rid}: {v['bad']}"))
                    continue
                if o.get("err"):
                    out.append(Violation("wrong value", f"call {rid} returned {v!r} although its body raised"))
                    continue
                need = [rid]
                if o["k"] == "batch":
                    need = [x["rid"] for x in o["items"]]
                    for x, vv in zip(o["items"], v):
                        _own(out, x["rid"], want, execs, vv)
                elif o["k"] == "relay":
                    need = [rid, o["rid2"]] if not o.get("tell") else [rid]
                    _own(out, rid, want, execs, v[:3])
                    if not o.get("tell"):
                        _own(out, o["rid2"], f"a{o['b']}", execs, v[3])
                else:
                    _own(out, rid, want, execs, v)
                for q in need:
                    if len(execs.get(q, [])) != 1:
                        out.append(Violation("not executed", f"call {q} returned ok but ran "
                                             f"{len(execs.get(q, []))} times"))
                    else:
                        e = [x for x in H.ends.get(q, []) if x["st"] == "ok" and x["i"] < r["i"]]
                        if not e:
                            out.append(Violation("early result", f"call {q} returned before its body ended"))
            elif r["st"] == "err":
                sim.probe("lost call")
                if not faulty:
                    if not (o.get("err") and r["et"] == "AppError" and f"app:{rid}" in r["em"]):
                        out.append(Violation("spurious failure", f"call {rid} ({o['k']} {o.get('m')}) failed "
                                             f"with {r['et']}: {r['em']}", et=r["et"]))
                if r["et"] == "AppError" and f":{rid}" not in r["em"]:
                    out.append(Violation("crossed error", f"call {rid} got the error {r['em']}"))
            elif r["st"] == "cancelled" and rid not in H.cancels:
                if not faulty:
                    out.append(Violation("spurious cancellation", f"call {rid} was cancelled by nobody"))
        elif o["k"] in ("tell", "delay"):
            if r is not None and r["st"] == "ok" and n == 0 and not faulty:
                out.append(Violation("lost tell", f"{o['k']} {rid} to {want} was accepted but never ran"))
            if not faulty and (r is None or r["st"] != "ok"):
                out.append(Violation("spurious failure", f"{o['k']} {rid} {r and (r.get('et'), r.get('em'))}"))
        elif o["k"] == "inner" and n == 0 and not faulty:
            pr = H.rets.get(o["parent"])
            if pr is not None and pr["st"] == "ok":
                out.append(Violation("lost tell", f"inner call {rid} never ran"))
    return out


def _own(out, rid, want, execs, v):
    if not isinstance(v, (list, tuple)) or len(v) < 2 or v[0] != rid or v[1] != want:
        out.append(Violation("crossed result", f"call {rid} on {want} received {v!r}"))
        return
    ss = execs.get(rid, [])
    if ss and v[2] not in [s["inst"] for s in ss]:
        out.append(Violation("crossed result", f"call {rid} received the value of instance {v[2]}"))
