"""P02: a stateful actor never runs two locked bodies at once, and never leaks its lock."""
import asyncio

from ..world import Violation
from . import common as C

RUNS = {"quick": 700, "thorough": 20000}
IMAGES = 20
NEED = {"contended": 1, "cancelled body": 1}


def step(rng, depth=0):
    r = rng.random()
    s = {"k": "sleep", "ms": rng.choice([0, 1, 5]), "hold": rng.choice([0, 0, 1, 3])}
    if r < 0.15:
        s["err"] = "app"
    if r > 0.8 and depth == 0:
        s = {"k": "tuple", "items": [step(rng, 1) for _ in range(2)], "hold": rng.choice([0, 2])}
    return s


def gen_op(rng, na, depth=0):
    r = rng.random()
    a = rng.randrange(na)
    ms = rng.choice([0, 1, 2, 5, 15])
    if r < 0.35:
        o = {"k": "send", "a": a, "m": rng.choice(["do", "do", "do", "sdo", "bplain", "bown", "bsync"]), "ms": ms}
    elif r < 0.45:
        o = {"k": "tell", "a": a, "m": rng.choice(["do", "do", "bown"]), "ms": ms}
    elif r < 0.6:
        o = {"k": "batch", "a": a, "m": rng.choice(["bplain", "bplain", "bown", "bsync", "bsown"]),
             "items": [{"ms": rng.choice([0, 1, 5]), "err": rng.choice([None] * 6 + ["app"])}
                       for _ in range(rng.randint(1, 4))]}
    elif r < 0.75:
        o = {"k": "yld", "a": a, "steps": [step(rng) for _ in range(rng.randint(1, 4))]}
    elif r < 0.82:
        o = {"k": "send", "a": a, "m": "free", "ms": ms}
    elif r < 0.9:
        o = {"k": "relay", "a": a, "b": rng.randrange(na), "ms": ms}
        if o["b"] <= a:
            o["tell"] = True
    elif depth < 1:
        o = {"k": "seq", "ops": [gen_op(rng, na, 1) for _ in range(rng.randint(2, 3))]}
    else:
        o = {"k": "send", "a": a, "m": "do", "ms": ms}
    if o["k"] in ("send", "yld", "batch", "relay") and rng.random() < 0.25:
        o["cancel"] = rng.choice([0, 0.3, 1, 3, 10, 25])
    if o["k"] in ("send", "tell") and rng.random() < 0.12:
        o["err"] = "app"
    if rng.random() < 0.5 and depth == 0:
        o["at"] = round(rng.random() * 40, 2)
    return o


def gen(rng, tier, i):
    plan = C.gen_topology(rng, nact=(1, 2), ncall=(2, 4), stateless=0.0)
    plan["knobs"] = C.swarm(rng)
    ops = []
    for _ in range(rng.randint(10, 40)):
        o = gen_op(rng, len(plan["actors"]))
        o["c"] = rng.randrange(len(plan["callers"]))
        ops.append(o)
    C.mainrefs(rng, ops)
    C.number(ops)
    plan["ops"] = ops
    plan["faults"] = []
    if rng.random() < 0.35:
        plan["faults"] = C.fault_calls(rng, plan, rng.randint(1, 2),
                                       kinds=("reset", "reset", "stop", "partition", "clock", "kill"))
    plan["deadline"] = 25
    plan["settle"] = 3.0
    plan["probe_actors"] = True
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


LOCKED = {"do", "sdo", "bplain", "bown", "bsync", "bsown", "bown.batch", "relay"}


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    group = {}
    for o in C.leaf_ops(plan["ops"]):
        if o["k"] == "batch":
            for x in o["items"]:
                group[x["rid"]] = f"b{o['rid']}"
    inside = {}  # inst -> {owner: count}
    bad = set()
    open_ops = set()
    for r in hist:
        if r["k"] == "start":
            if r["m"] not in LOCKED or r.get("inner"):
                continue
            key = r["rid"] if not r.get("rids") else f"b{_parent(group, r)}"
            own = group.get(r["rid"], r["rid"])
            d = inside.setdefault(r["inst"], {})
            d[own] = d.get(own, 0) + 1
            _chk(sim, out, bad, r, d, own)
        elif r["k"] == "ysec":
            d = inside.setdefault(r["inst"], {})
            own = r["rid"]
            if r["e"] == 0:
                d[own] = d.get(own, 0) + 1
                _chk(sim, out, bad, r, d, own)
            else:
                _dec(d, own)
        elif r["k"] == "end":
            if r["m"] not in LOCKED or "uid" not in r:
                continue
            if r["st"] == "CancelledError":
                sim.probe("cancelled body")
            own = group.get(r["rid"], r["rid"])
            d = inside.setdefault(r["inst"], {})
            if r["m"] in ("bown", "bsown") and own in d and own == group.get(r["rid"]) and _inner(hist, r):
                continue
            _dec(d, own)
    # waiting callers show contention
    out += leak(sim, H, plan)
    return out


def _parent(group, r):
    return group.get(r["rid"])


_inner_cache = {}


def _inner(hist, r):
    """Was this body started as part of a batch implementation (its start is not counted)?"""
    key = id(hist)
    c = _inner_cache.get(key)
    if c is None:
        _inner_cache.clear()
        c = _inner_cache[key] = {x["rid"] for x in hist if x["k"] == "start" and x.get("inner")}
    return r["rid"] in c


def _dec(d, own):
    if own in d:
        d[own] -= 1
        if d[own] <= 0:
            del d[own]


def _chk(sim, out, bad, r, d, own):
    if len(d) > 1 or d[own] > 1 and not str(own).startswith("b"):
        if r["inst"] in bad:
            return
        bad.add(r["inst"])
        out.append(Violation("overlap", f"actor {r['uid']}: {r.get('m', 'section of yielding method')} of call "
                             f"{r['rid']} started while {[x for x in d if x != own] or own} is inside"))


def leak(sim, H, plan):
    out = []
    for p in H.kind("probe_actor"):
        if p["st"] == "ok":
            sim.probe("actor serves afterwards")
        else:
            out.append(Violation("lock leaked", f"actor {p['uid']} does not accept the next call: {p['em']}"))
    # contention: a call issued while a locked body of the same actor was running
    if H.kind("start"):
        sim.probe("contended", sum(1 for r in H.kind("start") if r["m"] in LOCKED) > 5)
    return out
