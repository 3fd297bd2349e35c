"""P13: remote generators yield the exact sequence once, then end cleanly and are released."""
from ..kernel import SEC
from ..world import Violation
from . import common as C

RUNS = {"quick": 900, "thorough": 20000}
IMAGES = 20
NEED = {"ended": 20, "failed with its error": 5, "abandoned": 5, "handed over": 1}


def gen_op(rng, plan):
    na = len(plan["actors"])
    a = rng.randrange(na)
    if rng.random() < 0.7:
        n = rng.choice([0, 1, 2, 3, 8])
        o = {"k": "gen", "a": a, "m": rng.choice(["gen", "agen", "gena"]), "n": n, "ms": rng.choice([0, 0, 1, 4])}
        if rng.random() < 0.3:
            o["err_at"] = rng.randint(0, n)
            o["err"] = rng.choice(["app", "value", "stop", "conn", "timeout", "key"])
        r = rng.random()
        if r < 0.2:
            o["stop_at"] = rng.randint(1, 4)
        elif r < 0.25:
            o["drop"] = 1
        if rng.random() < 0.4:
            o["think"] = rng.choice([1, 5, 20])
        if rng.random() < 0.15 and a + 1 < na and not o.get("drop"):
            o["via"] = rng.randrange(a + 1, na)
        elif rng.random() < 0.1:
            o["cancel"] = rng.choice([0, 0.5, 2, 5, 20])
    else:
        o = {"k": "send", "a": a, "m": rng.choice(["do", "free", "sdo"]), "ms": rng.choice([0, 1, 5, 30])}
    return o


def gen(rng, tier, i):
    plan = C.gen_topology(rng, npools=(1, 2), nact=(1, 3), ncall=(2, 4), stateless=0.4)
    plan["knobs"] = C.swarm(rng)
    ops = []
    for _ in range(rng.randint(4, 20)):
        o = gen_op(rng, plan)
        o["c"] = rng.randrange(len(plan["callers"]))
        if rng.random() < 0.7:
            o["at"] = round(rng.random() * 40, 2)
        ops.append(o)
    C.mainrefs(rng, ops)
    C.number(ops)
    plan["ops"] = ops
    plan["faults"] = []
    if rng.random() < 0.3:
        plan["faults"] = C.fault_calls(rng, plan, rng.randint(1, 2),
                                       kinds=("reset", "reset", "stop", "kill", "partition", "clock"))
        for p in plan["pools"]:
            p["kw"] = {"auto_recover": rng.choice([False, "actor"])}
    plan["deadline"] = 40
    plan["settle"] = 3.0
    plan["probe_gens"] = True
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    hard = [f for f in H.kind("fault") if f["kind"] in ("kill", "reset", "partition")]
    items = {}
    for r in H.kind("item"):
        items.setdefault(r["rid"], []).append(r)
    vals, ended, new = {}, {}, {}
    for r in H.kind("gen_val"):
        vals.setdefault(r["rid"], []).append(r["n"])
    for r in H.kind("gen_end"):
        ended.setdefault(r["rid"], []).append(r)
    for r in H.kind("gen_new"):
        new.setdefault(r["rid"], []).append(r)
    exits = {r["pid"] for r in H.kind("proc_exit") if r["cause"] == "fault"}
    for o in C.leaf_ops(plan["ops"]):
        cl, r = H.calls.get(o["rid"]), H.rets.get(o["rid"])
        if cl is None:
            continue
        d = f"{o['m']} {o['rid']} of a{o['a']}"
        cc = H.cancels.get(o["rid"])
        if r is None:
            if cl["pid"] in exits:
                continue
            out.append(Violation("hang", f"{d} ({o['k']}) never ended", op=o["k"]))
            continue
        if o["k"] != "gen":
            if r["st"] != "ok" and not hard:
                out.append(Violation("bystander", f"call {o['rid']} gave {r['st']} {r.get('et')} {r.get('em')}",
                                     et=r.get("et")))
            continue
        got = [x["v"] for x in items.get(o["rid"], [])]
        want = [[o["rid"], i] for i in range(o["n"])]
        ea = o.get("err_at")
        if ea is not None:
            want = want[:ea]
        if got != want[:len(got)]:
            out.append(Violation("wrong sequence", f"{d} delivered {got[:12]}, expected {want[:12]}"))
            continue
        if vals.get(o["rid"], []) != list(range(len(vals.get(o["rid"], [])))) or len(new.get(o["rid"], [])) > 1:
            out.append(Violation("ran twice", f"{d} was produced {vals.get(o['rid'])}"))
        lim = o.get("stop_at")
        if "via" in o and r["st"] == "ok":
            sim.probe("handed over")
        if r["st"] == "ok":
            v = r["v"]
            if v["got"] != len(got):
                out.append(Violation("wrong sequence", f"{d}: {v} but {len(got)} items were seen"))
            if v.get("end"):
                if got != want or ea is not None:
                    out.append(Violation("ended early", f"{d} ended normally after {len(got)} values; it produces "
                                         f"{len(want)}" + (f" and then raises {o['err']}" if ea is not None else "")))
                sim.probe("ended")
            else:
                sim.probe("abandoned")
                if lim is not None and len(got) != lim:
                    out.append(Violation("wrong sequence", f"{d} stopped after {len(got)}, asked {lim}"))
        elif r["st"] == "err":
            own = ea is not None and f"{o['err']}:{o['rid']}" in r["em"] or \
                o.get("err") == "stop" and f"StopIteration of {o['rid']}" in r["em"]
            if own:
                et = {"app": "AppError", "value": "ValueError", "key": "KeyError", "stop": "RuntimeError",
                      "conn": "ConnectionResetError", "timeout": "TimeoutError"}[o["err"]]
                if et not in r["mro"]:
                    out.append(Violation("wrong error", f"{d} raised {et}, the consumer got {r['mro'][:3]}"))
                if got != want:
                    out.append(Violation("wrong sequence", f"{d} delivered {len(got)} of {len(want)} values before "
                                         "its error"))
                sim.probe("failed with its error")
            elif not hard and cc is None:
                out.append(Violation("wrong error", f"{d} gave {r['et']} {r['em']}", et=r["et"]))
        elif r["st"] == "cancelled" and cc is None and not hard:
            out.append(Violation("wrong error", f"{d}, which nobody cancelled, was cancelled"))
        # a cancelled one may sit in a reference cycle of exceptions (the simulator runs no cyclic
        # collection): for those only what the actor itself holds counts, see below
        if not hard and not cc and new.get(o["rid"]) and not ended.get(o["rid"]):
            out.append(Violation("not released", f"the generator {d} was never closed on its actor "
                                 f"(consumer: {r['st']} {r.get('v')} {r.get('et')})",
                                 how="cancel" if cc else r["st"]))
    if not hard:
        for r in H.kind("gens_left"):
            if r["n"] is None:
                out.append(Violation("actor stuck", f"actor {r['uid']}: {r['em']}"))
            elif r["n"]:
                out.append(Violation("not released", f"actor {r['uid']} still holds {r['n']} generators",
                                     how="cancel" if H.cancels else "-"))
    return out
