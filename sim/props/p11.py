"""P11: a timed wait on an actor call always ends on time, and truthfully."""
from ..kernel import SEC
from ..world import Violation
from . import common as C

RUNS = {"quick": 800, "thorough": 20000}
IMAGES = 20
NEED = {"timed out": 20, "in time": 20, "timed-out body cancelled": 5, "target unresponsive": 3}
SLACK_S = 1.6
BOUND_S = 6.0


def gen_op(rng, na):
    a = rng.randrange(na)
    r = rng.random()
    if r < 0.75:
        o = {"k": "wait", "a": a, "m": rng.choice(["do", "do", "do", "free", "bplain", "sdo", "bown"]),
             "ms": rng.choice([0, 1, 5, 20, 60, 200, 20000, 20000]),
             "tmo": rng.choice([0, 1, 4, 20, 60, 200, 1000, 4000]), "pay": C.gen_pay(rng)}
        if rng.random() < 0.12:
            o["err"] = rng.choice(["app", "timeout"])
        if o["m"] in ("do", "free") and rng.random() < 0.25:
            o["onc"] = rng.choice(["slow", "err", "swallow", "deaf"])
        if rng.random() < 0.08:
            o["cancel"] = rng.choice([0, 1, 20])
    else:
        o = {"k": "send", "a": a, "m": rng.choice(["do", "free", "bplain"]), "ms": rng.choice([0, 2, 10])}
    return o


def gen(rng, tier, i):
    plan = C.gen_topology(rng, npools=(2, 3), nsub=(0, 2), nact=(2, 4), ncall=(2, 4), stateless=0.35)
    v = plan["victim"] = len(plan["pools"]) - 1  # callers live elsewhere
    for c in plan["callers"]:
        if c.get("pool") == v:
            c["pool"] = 0
    plan["knobs"] = C.swarm(rng)
    ops = []
    for _ in range(rng.randint(6, 24)):
        o = gen_op(rng, len(plan["actors"]))
        o["c"] = rng.randrange(len(plan["callers"]))
        if rng.random() < 0.7:
            o["at"] = round(rng.random() * rng.choice([40, 40, 2000]), 2)
        ops.append(o)
    C.mainrefs(rng, ops)
    C.number(ops)
    plan["ops"] = ops
    fs = []
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 2)):
            kd = rng.choice(["stop", "stop", "stopmain", "partition", "kill", "killmain", "clock"])
            trg = {"at_ms": round(rng.random() * rng.choice([15, 60, 1000]), 3)}
            if rng.random() < 0.5:
                trg = {"on": {"k": rng.choice(["start", "end", "call", "ret"])},
                       "nth": rng.randint(1, 12), "delay_us": rng.choice([0, 30, 200, 1000])}
            if kd in ("stop", "kill"):
                f = {"kind": kd, "target": {"child_of": f"main{v}", "n": rng.randrange(3)}}
            elif kd in ("stopmain", "killmain"):
                f = {"kind": kd[:4], "target": f"main{v}", "main_ok": True}
            elif kd == "partition":
                f = {"kind": kd, "a": v, "b": rng.choice([x for x in list(range(v)) + [3]])}
            else:
                f = {"kind": kd, "host": rng.randrange(4), "by_s": rng.choice([-3600, -5, 5, 7200, 1e6])}
            if f["kind"] in ("stop", "partition"):
                f["for_ms"] = rng.choice([60, 700, 2500, 12000])
            f["trigger"] = trg
            fs.append(f)
    plan["faults"] = fs
    plan["deadline"] = 60
    plan["settle"] = 1.0
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


def check(sim, plan, hist, reason):
    H = C.Hist([r for r in hist if r.get("m") != "bown.batch"])
    out = C.setup_violations(H, reason)
    if out:
        return out
    v = plan["victim"]
    real = [f for f in H.kind("fault") if f["kind"] != "clock"]
    callers = {c["who"]: c for c in plan["callers"]}
    ops = {o["rid"]: o for o in C.leaf_ops(plan["ops"])}
    fin = (H.kind("finish") or [{"t": 1 << 62}])[0]["t"]
    for o in ops.values():
        cl, r, cc = H.calls.get(o["rid"]), H.rets.get(o["rid"]), H.cancels.get(o["rid"])
        if cl is None or o["k"] != "wait":
            continue
        d = f"wait_for({o['tmo']} ms) {o['rid']} {o['m']}"
        hit = plan["actors"][o["a"]]["pool"] == v and real
        dl = cl["t"] + o["tmo"] * SEC // 1000
        if r is None or r["t"] > dl + SLACK_S * SEC:
            out.append(Violation("late", f"{d} " + ("never ended" if r is None else
                                 f"ended {(r['t'] - dl) / SEC:.2f} s after its deadline: {r['st']} {r.get('et')}"),
                                 faults=sorted({f["kind"] for f in real})))
            continue
        st = H.starts.get(o["rid"], [])
        en = (H.ends.get(o["rid"]) or [None])[0]
        if len(st) > 1:
            out.append(Violation("ran twice", f"{d} ran {len(st)} times"))
        tmo = r["st"] == "err" and r["et"] == "TimeoutError"
        if hit:
            sim.probe("target unresponsive" if tmo and en is None else "target faulty")
        if cc is not None and cc["i"] < r["i"]:
            if r["st"] == "err" and not tmo and o.get("onc") != "err" and not hit and o.get("err") is None:
                out.append(Violation("wrong end", f"{d}, cancelled, gave {r['et']} {r['em']}"))
        elif tmo and "timeout:" not in r["em"]:
            sim.probe("timed out")
            if r["t"] < dl:
                out.append(Violation("early", f"{d} timed out {(dl - r['t']) / 1e6:.3f} ms early"))
            if en is not None and en["st"] == "ok" and en["t"] + 2.5 * SEC < dl and not hit:
                out.append(Violation("lost result", f"{d} timed out although its body ended "
                                     f"{(dl - en['t']) / SEC:.1f} s before the deadline"))
        elif r["st"] == "ok":
            sim.probe("in time")
            if isinstance(r["v"], dict):
                out.append(Violation("wrong value", f"{d}: {r['v']['bad']}"))
            elif r["v"][0] != o["rid"]:
                out.append(Violation("wrong value", f"{d} got the value of {r['v'][0]}"))
            elif en is None or en["st"] != "ok":
                out.append(Violation("wrong value", f"{d} returned a value but its body did not end normally"))
        elif r["st"] == "err":
            exp = o.get("err")
            if exp == "app" and "app:" in r["em"] or exp == "timeout" and "timeout:" in r["em"]:
                sim.probe("own error in time")
            elif not hit:
                out.append(Violation("wrong end", f"{d} gave {r['et']} {r['em']}", et=r["et"]))
        else:
            out.append(Violation("wrong end", f"{d}, which nobody cancelled, was cancelled"))
        # a call given up must be cancelled on a target that can be reached
        gone = r if tmo and "timeout:" not in r["em"] else cc
        if gone is not None and st and not hit and st[0]["i"] < gone["i"] and o.get("onc") != "deaf":
            if en is not None and en["i"] < gone["i"]:
                continue
            lim = gone["t"] + BOUND_S * SEC
            if en is None and fin < lim:
                continue
            if en is None or en["t"] > lim:
                out.append(Violation("not cancelled", f"the body of {d} was still running {BOUND_S} s after the "
                                     f"call was given up", how="timeout" if gone is r else "cancel"))
            elif en["st"] == "CancelledError":
                sim.probe("timed-out body cancelled")
    if not real:
        for o in ops.values():
            r = H.rets.get(o["rid"])
            if o["k"] == "send" and o["rid"] in H.calls and (r is None or r["st"] != "ok"):
                out.append(Violation("bystander", f"send {o['rid']} gave {r and r['st']} {r and r.get('et')}"))
    return out
