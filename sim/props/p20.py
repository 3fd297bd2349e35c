"""P20: yielding methods get their awaited results back and keep the actor responsive."""
from ..kernel import MS, SEC
from ..world import Violation
from . import common as C

RUNS = {"quick": 700, "thorough": 20000}
IMAGES = 20
NEED = {"yield results": 20, "tuple result": 20, "error at a yield": 5, "cancelled at a yield": 3,
        "ran during a wait": 3}
BOUND_S = 6
LONG = 15000


def gen_step(rng, na, depth, intuple=False, a=None):
    r = rng.random()
    err = {"err": rng.choice(["app", "app", "app", "value"])} if rng.random() < 0.1 else {}
    if r < 0.3:
        return {"k": "sleep", "ms": rng.choice([0, 0, 1, 3, 10]), **err}
    if r < 0.55:
        return {"k": "call", "to": rng.randrange(na), "ms": rng.choice([0, 0, 1, 4]), **err}
    if r < 0.7 and depth < 2:
        return {"k": "ycall", "to": rng.randrange(na), **err,
                "steps": [gen_step(rng, na, depth + 1) for _ in range(rng.randint(0, 3))]}
    if r < 0.8 and depth < 2:
        return {"k": "own", **err, "steps": [gen_step(rng, na, depth + 1) for _ in range(rng.randint(0, 3))]}
    if r < 0.9 or intuple:
        return {"k": "val", "v": rng.choice([None, 0, "x", [1, 2], {"a": 1}])}
    return {"k": "tuple", "items": [gen_step(rng, na, depth, True) for _ in range(rng.randint(0, 4))]}


def gen_op(rng, plan):
    na = len(plan["actors"])
    a = rng.randrange(na)
    r = rng.random()
    if r < 0.45:
        o = {"k": "yld", "a": a, "steps": [gen_step(rng, na, 0) for _ in range(rng.randint(0, 4))]}
        for s in o["steps"]:
            if rng.random() < 0.1:
                s["hold"] = rng.choice([1, 4])
        if rng.random() < 0.08:
            o["err"] = "app"
    elif r < 0.7:
        o = {"k": "tup", "a": a, "m": rng.choice(["tup", "atup"]),
             "steps": [gen_step(rng, na, 1, True) for _ in range(rng.randint(0, 5))]}
    else:
        return {"k": "send", "a": a, "m": rng.choice(["do", "do", "sdo"]), "ms": rng.choice([0, 0, 1, 4])}
    if rng.random() < 0.2:
        o["cancel"] = rng.choice([0, 0.3, 1, 2, 5, 15])
        if rng.random() < 0.7 and o["steps"]:
            mk_long(rng, rng.choice(o["steps"]), LONG)
    elif rng.random() < 0.1 and o["steps"]:
        mk_long(rng, rng.choice(o["steps"]), 9000)
    return o


def mk_long(rng, s, ms):
    """Make one wait of a step last, never one that occupies an actor."""
    if s["k"] == "sleep":
        s["ms"] = ms
        if rng.random() < 0.25:
            s["deaf"] = 1
    elif s["k"] in ("tuple", "ycall", "own") and s.get("items" if s["k"] == "tuple" else "steps"):
        mk_long(rng, rng.choice(s["items"] if s["k"] == "tuple" else s["steps"]), ms)


def gen(rng, tier, i):
    plan = C.gen_topology(rng, npools=(1, 2), nact=(1, 3), ncall=(2, 4), stateless=0.25)
    plan["knobs"] = C.swarm(rng, heavy=rng.random() < 0.5)
    ops = []
    for _ in range(rng.randint(3, 16)):
        o = gen_op(rng, plan)
        o["c"] = rng.randrange(len(plan["callers"]))
        if rng.random() < 0.6:
            o["at"] = round(rng.random() * 30, 2)
        ops.append(o)
    C.mainrefs(rng, ops)
    C.number(ops)
    plan["ops"] = ops
    plan["faults"] = []
    r = rng.random()
    if r < 0.15:
        plan["faults"] = C.fault_calls(rng, plan, 1, kinds=("stop", "clock"))
    elif r < 0.25:
        plan["faults"] = C.fault_calls(rng, plan, 1, kinds=("reset", "kill", "partition"))
        for p in plan["pools"]:
            p["kw"] = {"auto_recover": False}
    plan["deadline"] = 80
    plan["settle"] = 1.5
    plan["probe_actors"] = True
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


class E(Exception):
    pass


ANY = object()
REACHED = set()  # calls an operation gets to


def ev(s, rid, n, tag):
    k = s["k"]
    if k == "sleep":
        if s.get("err"):
            raise E(f"{s['err']}:{rid}")
        return ["slept", rid, str(n)]
    if "rid" in s:
        REACHED.add(s["rid"])
    if k == "call":
        if s.get("err"):
            raise E(f"{s['err']}:{s['rid']}")
        return [s["rid"], f"a{s['to']}", ANY, ANY, None]
    if k == "val":
        return s["v"]
    if k == "tuple":
        vals, err = [], None
        for i, x in enumerate(s["items"]):
            try:
                vals.append(ev(x, rid, f"{n}.{i}", tag))
            except E as e:
                err = err or e
        if err:
            raise err
        return vals
    return run(s, s["rid"], f"a{s['to']}" if k == "ycall" else tag)


def run(op, rid, tag):
    got = []
    for n, s in enumerate(op["steps"]):
        try:
            got.append(ev(s, rid, n, tag))
        except E as e:
            if not str(e).startswith("app:"):
                raise
            got.append(("err", str(e)))
    if op.get("err"):
        raise E(f"{op['err']}:{rid}")
    return [rid, tag, ANY, got]


def same(want, got):
    if want is ANY:
        return True
    if isinstance(want, tuple):
        return isinstance(got, list) and len(got) == 2 and got[0] == "err" and want[1] in got[1]
    if isinstance(want, list):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and all(map(same, want, got))
    return type(want) is type(got) and want == got


def rids(op, out):
    """Calls made on behalf of an operation: rid -> kind."""
    for s in op.get("steps") or op.get("items") or ():
        if s["k"] == "call":
            out[s["rid"]] = "call"
        elif s["k"] in ("ycall", "own"):
            out[s["rid"]] = s["k"]
        rids(s, out)
    return out


def short(v):
    return "*" if v is ANY else [short(x) for x in v] if isinstance(v, (list, tuple)) else v


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    hard = any(f["kind"] in ("kill", "reset", "partition") for f in H.kind("fault"))
    slow = sum(f.get("for_ms", 0) for f in plan["faults"]) * MS
    exits = {r["pid"] for r in H.kind("proc_exit") if r["cause"] == "fault"}
    where = {c["who"]: c["at"] for c in plan["callers"]}
    ystarts, parts, pends = {}, {}, {}
    for r in H.kind("ystart"):
        ystarts.setdefault(r["rid"], []).append(r)
    for r in H.kind("part"):
        parts.setdefault(r["rid"], []).append(r)
    for r in H.kind("part_end"):
        pends[(r["rid"], str(r["n"]), r["uid"])] = r
    deaf = H.kind("part_deaf")
    ycancel = {(r["rid"], r["n"]): r for r in H.kind("ycancel")}
    last = hist[-1]["t"] if hist else 0
    for r in H.kind("part_cancel"):
        # the generator whose wait is cancelled gets to know it at its yield
        if r["rid"] in ystarts and isinstance(r["n"], int) and not hard and r["pid"] not in exits \
                and r["t"] + BOUND_S * SEC + slow < last:
            c = ycancel.get((r["rid"], r["n"]))
            if c is None or c["t"] > r["t"] + BOUND_S * SEC + slow:
                out.append(Violation("not told", f"the wait at yield {r['n']} of call {r['rid']} was cancelled, the method was not told"))
            else:
                sim.probe("told of the cancellation")
    yerr = {r["rid"] for r in H.kind("yerr")}
    waits = []  # (from, to, actor instance) of the long waits
    for r in H.kind("part"):
        e = pends.get((r["rid"], str(r["n"]), r["uid"]))
        if e and e["t"] - r["t"] > 8 * SEC:
            waits.append((r["t"], e["t"], r["uid"]))
    for o in C.leaf_ops(plan["ops"]):
        cl, r, cc = H.calls.get(o["rid"]), H.rets.get(o["rid"]), H.cancels.get(o["rid"])
        if cl is None:
            continue
        d = f"{o.get('m') or o['k']} {o['rid']} on a{o['a']}"
        if r is None:
            if cl["pid"] not in exits and not hard:
                out.append(Violation("hang", f"{d} never ended", op=o["k"]))
            continue
        if hard and r["st"] != "ok":
            continue
        if o["k"] == "send":
            if r["st"] != "ok":
                out.append(Violation("bystander", f"{d} gave {r['st']} {r.get('et')} {r.get('em')}", et=r.get("et")))
            elif r["t"] - cl["t"] > BOUND_S * SEC + slow and not hard:
                out.append(Violation("unresponsive", f"{d} took {(r['t'] - cl['t']) / SEC:.1f} s"))
            elif any(a < cl["t"] and r["t"] < b and u == f"a{o['a']}" for a, b, u in waits):
                sim.probe("ran during a wait")
            continue
        inner = rids(o, {})
        REACHED.clear()
        try:
            if o["k"] == "tup":
                want = ev({"k": "tuple", "items": o["steps"]}, o["rid"], "", f"a{o['a']}")
                # the parts are numbered from the top here
                want = renumber(want, o)
            else:
                want = run(o, o["rid"], f"a{o['a']}")
            werr = None
        except E as e:
            want, werr = None, str(e)
        if cc is not None:
            if r["st"] == "cancelled":
                sim.probe("cancelled at a yield" if o["k"] == "yld" else "cancelled tuple")
            for x in parts.get(o["rid"], []) + [p for q, k in inner.items() if k != "call" for p in parts.get(q, [])]:
                e = pends.get((x["rid"], str(x["n"]), x["uid"]))
                if r["st"] != "cancelled" or x["t"] > cc["t"] and where[o["c"]] == "client":
                    continue
                lim = max(cc["t"], x["t"]) + BOUND_S * SEC + slow
                if e is None or e["t"] > lim:
                    out.append(Violation("part not cancelled", f"part {x['n']} of {d} (call {x['rid']}) went on after "
                                         "the call was cancelled", op=o["k"]))
            if r["st"] == "cancelled":
                if not hard and r["t"] - cc["t"] > BOUND_S * SEC + slow:
                    out.append(Violation("cancel late", f"{d} ended {(r['t'] - cc['t']) / SEC:.1f} s after its "
                                         "cancellation", op=o["k"]))
                continue
        elif r["st"] == "cancelled":
            out.append(Violation("wrong error", f"{d}, which nobody cancelled, was cancelled", op=o["k"]))
            continue
        if r["st"] == "err":
            if werr is None or werr not in r["em"]:
                out.append(Violation("wrong error", f"{d} raised {r['et']} {r['em'][:150]}, expected "
                                     f"{werr or 'a value'}", op=o["k"], et=r["et"]))
            else:
                sim.probe("error raised")
            continue
        if cc is not None and o["k"] == "tup" and sum(x["k"] != "val" for x in o["steps"]) > 1 and \
                any(x["rid"] == o["rid"] for x in deaf):
            out.append(Violation("cancel lost", f"{d}, whose parts had been cancelled, returned as if nothing had happened"))
        if werr is not None:
            out.append(Violation("error lost", f"{d} returned {str(r['v'])[:100]}, expected the error {werr}", op=o["k"]))
            continue
        if not same(want, r["v"]):
            out.append(Violation("wrong values", f"{d} gave {str(r['v'])[:300]}, expected {str(short(want))[:300]}",
                                 op=o["k"]))
            continue
        sim.probe("yield results" if o["k"] == "yld" else "tuple result")
        if o["rid"] in yerr:
            sim.probe("error at a yield")
        if not hard and cc is None:
            for q, k in inner.items():
                if q not in REACHED:
                    continue
                n = len(H.starts.get(q, [])) if k == "call" else len(ystarts.get(q, []))
                if n != 1:
                    out.append(Violation("inner call count", f"inner {k} {q} of {d} ran {n} times", op=o["k"]))
    for r in H.kind("probe_actor"):
        if r["st"] != "ok" and not hard:
            out.append(Violation("actor stuck", f"actor {r['uid']} no longer answers: {r['em']}"))
    return out


def renumber(want, o):
    out = []
    for i, (w, s) in enumerate(zip(want, o["steps"])):
        out.append(["slept", o["rid"], str(i)] if s["k"] == "sleep" else w)
    return out
