"""P06: cancelling a call cancels it remotely, ends it, and affects nothing else."""
from ..kernel import SEC
from ..world import Violation
from . import common as C

RUNS = {"quick": 800, "thorough": 20000}
IMAGES = 20
NEED = {"cancelled running body": 5, "cancelled while queued": 1, "finished before the cancel": 1,
        "bystander ok": 20}
LONG = 15000
BOUND_S = 6.0


def gen_op(rng, na):
    r = rng.random()
    a = rng.randrange(na)
    ms = rng.choice([0, 1, 2, 5, 15])
    if r < 0.5:
        o = {"k": "send", "a": a, "m": rng.choice(["do", "do", "do", "free", "free", "bplain", "bown", "sdo"]),
             "ms": ms, "pay": C.gen_pay(rng)}
    elif r < 0.55:
        o = {"k": "tell", "a": a, "m": "do", "ms": ms}
    elif r < 0.7:
        o = {"k": "batch", "a": a, "m": rng.choice(["bplain", "bown"]),
             "items": [{"ms": rng.choice([0, 1, 5])} for _ in range(rng.randint(1, 4))]}
    elif r < 0.82:
        o = {"k": "relay", "a": a, "b": rng.randrange(na), "ms": ms}
        if o["b"] <= a:
            o["tell"] = True
    else:
        o = {"k": "yld", "a": a, "steps": [{"k": "sleep", "ms": rng.choice([0, 2, 8])}
                                           for _ in range(rng.randint(1, 3))]}
    if o["k"] in ("send", "batch", "relay", "yld") and rng.random() < 0.45:
        o["cancel"] = rng.choice([0, 0.2, 0.5, 1, 2, 4, 9, 20, 60])
        if rng.random() < 0.25:
            o["cancel2"] = rng.choice([0, 0.1, 0.3, 1, 4])  # an impatient user
        if rng.random() < 0.6:  # ends through the cancellation only
            if o["k"] in ("send", "relay"):
                if not o.get("tell"):
                    o["ms"] = LONG
            elif o["k"] == "batch":
                rng.choice(o["items"])["ms"] = LONG
            else:
                rng.choice(o["steps"])["ms"] = LONG
        if o["k"] == "send" and o["m"] in ("do", "free") and rng.random() < 0.3:
            o["onc"] = rng.choice(["slow", "err", "swallow"])
    return o


def gen(rng, tier, i):
    plan = C.gen_topology(rng, npools=(1, 2), nact=(1, 3), ncall=(2, 4), stateless=0.3)
    plan["knobs"] = C.swarm(rng)
    ops = []
    for _ in range(rng.randint(8, 32)):
        o = gen_op(rng, len(plan["actors"]))
        o["c"] = rng.randrange(len(plan["callers"]))
        if rng.random() < 0.6:
            o["at"] = round(rng.random() * 50, 2)
        ops.append(o)
    C.mainrefs(rng, ops)
    C.number(ops)
    plan["ops"] = ops
    plan["faults"] = []
    if rng.random() < 0.2:
        plan["faults"] = C.fault_calls(rng, plan, 1, kinds=("stop", "clock"))
    plan["deadline"] = 80
    plan["settle"] = 1.0
    plan["probe_actors"] = True
    plan["probe_s"] = 60
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


def expected(o):
    """Every single call of an operation: rid -> whether it alone would last."""
    if o["k"] == "batch":
        return {x["rid"]: x.get("ms", 0) for x in o["items"]}
    return {o["rid"]: o.get("ms", 0)}


def check(sim, plan, hist, reason):
    hist = [r for r in hist if r.get("m") != "bown.batch"]
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    slow = 4 if any(f["kind"] == "stop" for f in plan.get("faults", [])) else 0
    bound = int((BOUND_S + slow) * SEC)
    parts = {}
    for r in hist:
        if r["k"] in ("part", "part_end"):
            parts.setdefault((r["rid"], r["n"]), {})[r["k"]] = r
    seen = {r["rid"] for r in H.kind("seen_cancel")}
    fin = (H.kind("finish") or [{"t": 1 << 62}])[0]["t"]
    held = {x["uid"] for rid, ss in H.starts.items() for x in ss
            if ((H.ends.get(rid) or [{"t": fin}])[-1]["t"] - x["t"]) > SEC}
    callers = {c["who"]: c for c in plan["callers"]}
    for o in C.leaf_ops(plan["ops"]):
        cl, r, cc = H.calls.get(o["rid"]), H.rets.get(o["rid"]), H.cancels.get(o["rid"])
        if cl is None:
            continue
        d = f"{o['k']} {o['rid']} {o.get('m') or ''}"
        rids = [x["rid"] for x in o["items"]] if o["k"] == "batch" else [o["rid"]]
        if o["k"] == "relay":
            rids.append(o["rid2"])
        if cc is None:
            if r is None:
                out.append(Violation("bystander hangs", f"{d}, which nobody cancelled, never ended", op=o["k"]))
            elif r["st"] != "ok":
                out.append(Violation("bystander hurt", f"{d}, which nobody cancelled, gave {r['st']} "
                                     f"{r.get('et')} {r.get('em')}", op=o["k"], et=r.get("et")))
            else:
                v = r["v"]
                if isinstance(v, dict) and "bad" in v:
                    out.append(Violation("wrong value", f"{d}: {v['bad']}"))
                sim.probe("bystander ok")
            for x in rids:
                for e in H.ends.get(x, []):
                    if e["st"] != "ok":
                        out.append(Violation("bystander hurt", f"the body of {d}, which nobody cancelled, "
                                             f"ended with {e['st']}", op=o["k"], et=e["st"]))
                if o["k"] not in ("gen", "yld") and len(H.starts.get(x, [])) != 1 and (o["k"] != "relay" or r and r["st"] == "ok"):
                    out.append(Violation("lost", f"the body of {d}, which nobody cancelled, ran "
                                         f"{len(H.starts.get(x, []))} times", op=o["k"]))
            continue
        # ---- cancelled
        if r is None or r["t"] - cc["t"] > bound:
            if o["k"] == "yld" and f"a{o['a']}" in held:
                continue  # it needs the actor's lock to unwind
            out.append(Violation("cancel hangs", f"{d}: the caller's await did not end within {bound / SEC:.0f} s "
                                 f"after it was cancelled", op=o["k"]))
            continue
        if r["i"] < cc["i"]:
            continue
        ok_err = o.get("onc") == "err" and r["st"] == "err" and r["et"] == "AppError" or \
            o.get("onc") == "err" and r["st"] == "err" and "AppError" in (r.get("mro") or ())
        if r["st"] == "err" and not ok_err:
            out.append(Violation("wrong end", f"{d}, cancelled, gave {r['et']} {r['em']}", op=o["k"], et=r["et"]))
        if r["st"] == "ok" and isinstance(r["v"], dict) and "bad" in r["v"]:
            out.append(Violation("wrong value", f"{d}: {r['v']['bad']}"))
        for x in rids:
            sts = H.starts.get(x, [])
            if len(sts) > 1:
                out.append(Violation("ran twice", f"the body of {d} ran {len(sts)} times"))
            if not sts:
                sim.probe("cancelled while queued")
                if r["st"] == "ok" and not (o["k"] == "relay" and o.get("tell")):
                    out.append(Violation("wrong end", f"{d} returned a value but its body never ran", op=o["k"]))
                continue
            en = (H.ends.get(x) or [None])[0]
            if en is not None and en["st"] == "ok" and en["i"] < cc["i"]:
                sim.probe("finished before the cancel")
                continue
            if o["k"] == "relay" and o.get("tell") and x == o["rid2"]:
                continue  # what was told is not part of the call
            late = sts[0]["i"] > cc["i"]
            if en is None and fin - cc["t"] < bound:
                continue
            if en is None or en["t"] - max(cc["t"], sts[0]["t"]) > bound:
                if late and callers[o["c"]]["at"] == "client":
                    sim.probe("started after the cancel and ran on")
                    if ENVLATE:
                        out.append(Violation("late start", f"body of {d} (started {(sts[0]['t'] - cc['t']) / 1e6:.2f} ms after cancel, call {(cc['t'] - cl['t'])/1e6:.2f})", op=o["k"]))
                    continue
                out.append(Violation("not delivered", f"the body of {d}, {'started after' if late else 'running when'} its "
                                     f"call was cancelled, did not observe any cancellation within {bound / SEC:.0f} s", op=o["k"]))
            elif en["st"] == "CancelledError" or x in seen:
                sim.probe("cancelled running body")
        if o["k"] == "yld":
            for (rid, n), p in sorted(parts.items(), key=str):
                if rid == o["rid"] and p["part"]["i"] < cc["i"]:
                    e = p.get("part_end")
                    if e is None and fin - cc["t"] < bound:
                        continue
                    if e is None or e["t"] - cc["t"] > bound:
                        out.append(Violation("not delivered", f"part {n} of {d} outlived its cancelled call",
                                             op="yld"))
    for p in H.kind("probe_actor"):
        if p["st"] != "ok":
            out.append(Violation("actor stuck", f"actor {p['uid']} does not accept the next call: {p['em']}"))
    return out


import os
ENVLATE = os.environ.get("XSIM_LATE")
