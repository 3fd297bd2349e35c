"""P04: errors reach exactly their caller, with type and message; unserializable values harm only
their own call."""
from ..world import Violation
from . import common as C

RUNS = {"quick": 700, "thorough": 20000}
IMAGES = 20
NEED = {"error arrived": 1, "unserializable failed": 1, "bystander ok": 1, "create failed": 1}

KINDS = ["app", "value", "key", "os", "kw", "stop", "timeout", "conn", "eof", "assert", "unicode",
         "nopickle", "nounpickle"]
TYPE = {"app": "AppError", "value": "ValueError", "key": "KeyError", "os": "OSError", "kw": "KwError",
        "stop": "RuntimeError", "timeout": "TimeoutError", "conn": "ConnectionResetError", "eof": "EOFError",
        "assert": "AssertionError", "unicode": "UnicodeDecodeError"}
MSG = {"stop": "StopIteration of {}"}


def gen_op(rng, plan, u):
    na = len(plan["actors"])
    a = rng.randrange(na)
    r = rng.random()
    ms = rng.choice([0, 0, 1, 4])
    if r < 0.45:  # bystanders
        o = {"k": "send", "a": a, "m": rng.choice(["do", "do", "sdo", "free", "bplain", "bown"]), "ms": ms,
             "pay": C.gen_pay(rng, False)}
    elif r < 0.6:
        o = {"k": "send", "a": a, "m": rng.choice(["do", "sdo", "free", "bplain", "bown"]), "ms": ms,
             "err": rng.choice(KINDS)}
    elif r < 0.68:
        o = {"k": rng.choice(["send", "send", "tell"]), "a": a, "m": rng.choice(["do", "sdo", "free"]),
             "pay": [rng.choice(["nopickle", "nounpickle"]), 0, 0], "ms": ms}
    elif r < 0.76:
        o = {"k": "send", "a": a, "m": rng.choice(["do", "sdo", "free"]),
             "out": [rng.choice(["nopickle", "nounpickle"]), 0, 0], "ms": ms}
    elif r < 0.82:
        o = {"k": "tell", "a": a, "m": "do", "err": rng.choice(KINDS), "ms": ms}
    elif r < 0.88:
        o = {"k": "relay", "a": a, "b": rng.randrange(na), "ms": ms, "err": rng.choice(KINDS[:-2])}
        if o["b"] <= a:
            o["tell"] = True
    else:
        e = rng.choice(["init_err", "create_err", "destroy_err", "destroy_err", None, "badarg"])
        o = {"k": "create", "uid": f"n{u}", "pool": rng.randrange(len(plan["pools"])), "slot": rng.randrange(4)}
        if e == "badarg":
            o["args"] = ["nopickle"]
        elif e:
            o["kw"] = {e: rng.choice(KINDS[:-2]), "rid": u}
        if e == "destroy_err" or e is None:
            o = {"k": "seq", "ops": [o, {"k": "destroy", "uid": o["uid"], "pool": o["pool"], "slot": o["slot"],
                                         "byref": True, "expect": e and o["kw"][e], "n": u}]}
    return o


def gen(rng, tier, i):
    plan = C.gen_topology(rng, nact=(1, 3), ncall=(1, 3))
    plan["knobs"] = C.swarm(rng)
    ops = []
    for u in range(rng.randint(8, 30)):
        o = gen_op(rng, plan, u)
        o["c"] = rng.randrange(len(plan["callers"]))
        if rng.random() < 0.4:
            o["at"] = round(rng.random() * 15, 2)
        ops.append(o)
    C.mainrefs(rng, ops)
    C.number(ops)
    plan["ops"] = ops
    plan["faults"] = []
    if rng.random() < 0.3:
        plan["faults"] = C.fault_calls(rng, plan, 1, kinds=("stop", "partition", "clock"))
    plan["deadline"] = 25
    plan["settle"] = 2.0
    plan["probe"] = True
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


def want(o):
    """(kind of error the caller must get, number in its message), or None for success."""
    if o["k"] == "create":
        kw = o.get("kw", {})
        if o.get("args"):
            return ("nopickle", 0)
        for e in ("init_err", "create_err"):
            if kw.get(e):
                return (kw[e], kw["rid"])
        return None
    if o["k"] == "destroy":
        return (o["expect"], o["n"]) if o.get("expect") else None
    if (o.get("pay") or [0])[0] in ("nopickle", "nounpickle"):
        return ("nopickle", 0)
    if (o.get("out") or [0])[0] in ("nopickle", "nounpickle"):
        return ("nopickle-out", 0)
    if o["k"] == "relay":
        return (o["err"], o["rid2"]) if o.get("err") and not o.get("tell") else None
    if o.get("err"):
        return (o["err"], o["rid"])
    return None


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    home = {r["uid"]: r["pid"] for r in H.kind("actor_up")}
    for o in C.leaf_ops(plan["ops"]):
        cl, r = H.calls.get(o["rid"]), H.rets.get(o["rid"])
        if cl is None:
            continue
        d = f"{o['k']} {o['rid']} {o.get('m') or o.get('uid')}"
        w = want(o)
        if r is None:
            out.append(Violation("hang", f"{d} (expected {w}) never ended", expected=str(w and w[0])))
            continue
        if o["k"] == "tell":
            continue
        if w is None:
            if r["st"] != "ok" or isinstance(r.get("v"), dict):
                out.append(Violation("bystander", f"{d}, with nothing wrong of its own, gave {r['st']} "
                                     f"{r.get('et')} {r.get('em')} {r.get('v')}", et=r.get("et")))
            else:
                sim.probe("bystander ok")
            continue
        kind, n = w
        if kind in ("nopickle", "nounpickle", "nopickle-out"):
            local = cl["pid"] == home.get(f"a{o['a']}") if "a" in o else True
            if r["st"] == "ok" and local:
                continue  # inside one process nothing has to be serialized
            if r["st"] == "ok":
                out.append(Violation("no error", f"{d}: a value that cannot be serialized gave {r.get('v')}"))
            elif r["st"] == "err":
                sim.probe("unserializable failed")
                if o["k"] == "create":
                    sim.probe("create failed")
                if r["et"] in ("ServerClosed", "ConnectionResetError", "BrokenPipeError", "EOFError"):
                    out.append(Violation("connection lost", f"{d}: a value that cannot be serialized broke the "
                                         f"connection: {r['et']} {r['em']}"))
            else:
                out.append(Violation("cancelled", f"{d} was cancelled by nobody"))
            continue
        if r["st"] != "err":
            out.append(Violation("no error", f"{d} must fail with {kind} of {n}; it gave {r['st']} {r.get('v')}"))
            continue
        msg = MSG.get(kind, kind + ":{}").format(n)
        if TYPE[kind] not in r["mro"]:
            out.append(Violation("wrong type", f"{d}: {TYPE[kind]} arrived as {r['mro'][:4]} {r['em']}"))
        elif msg not in r["em"] and msg not in r["ea"]:
            out.append(Violation("wrong message", f"{d}: {kind} {n} arrived as {r['em']} / {r['ea']}"))
        else:
            sim.probe("error arrived")
            if o["k"] == "create":
                sim.probe("create failed")
    for p in H.kind("ret"):
        if p.get("op") == "probe" and p["st"] != "ok":
            out.append(Violation("dead pool", f"{p['addr']} no longer serves: {p.get('et')} {p.get('em')}"))
    return out
