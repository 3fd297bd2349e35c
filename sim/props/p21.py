"""P21: the async cache computes once per key and isolates its callers."""
from ..kernel import MS
from ..world import Violation
from . import common as C
from .p07 import INF

RUNS = {"quick": 900, "thorough": 20000}
IMAGES = 14
NEED = {"shared an execution": 500, "reused a result": 500, "caller cancelled, execution went on": 100,
        "failure shared": 100, "failure kept": 50, "failure retried": 50, "invalidated while running": 20,
        "evicted": 50, "closed": 50, "reopened": 20, "execution cancelled itself": 50, "call while closed": 10}

FORMS = [[["i", 1]], [["f", 1]], [["b", 1]], [["i", 2]], [["i", 0]], [["s", "1"]], [["s", "x"]], [["i", 1], ["i", 2]],
         [["i", 2], ["i", 1]], [], [["i", -1]], [["i", -2]]]
KWS = [None, None, None, [["a", ["i", 1]]], [["a", ["i", 2]]], [["b", ["i", 1]]], [["a", ["i", 1]], ["b", ["i", 2]]]]


def gen(rng, tier, i):
    plan = {"pools": [{"host": 0, "n": 1}], "actors": [{"pool": 0, "slot": 1}], "callers": []}
    if rng.random() < 0.25:
        plan["callers"].append({"who": 0, "at": "actor", "pool": 0, "slot": rng.randrange(2)})
    else:
        plan["callers"].append({"who": 0, "at": "client", "host": 3})
    plan["knobs"] = C.swarm(rng, heavy=False)
    for k in ("stall_p", "stall_max_ms"):
        plan["knobs"].pop(k, None)
    plan["knobs"]["cost_us"] = rng.choice([0, 0, 2, 20])
    cfgs = []
    for _ in range(rng.choice([1, 1, 2])):
        cfgs.append({"form": rng.choice(["plain", "plain", "bare", "method", "partial"]),
                     "max": rng.choice([None, None, 0, 1, 2, 3, 128]), "typed": rng.random() < 0.3,
                     "cexc": rng.random() < 0.5})
        if rng.random() < 0.2:
            cfgs[-1] = {"form": "bare", "max": 128, "typed": False, "cexc": True}
    keys = [{"args": rng.choice(FORMS), "kw": rng.choice(KWS)} for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.4:  # keys that are easily confused
        keys = [{"args": f, "kw": None} for f in rng.sample(FORMS[:7], rng.randint(2, 5))]
    keys = [{"args": k["args"], **({"kw": k["kw"]} if k.get("kw") else {})} for k in keys]
    if not all(c["typed"] for c in cfgs):  # whether 1, 1.0 and True are one key then is left open
        keys = [k for k in keys if k["args"] not in ([["f", 1]], [["b", 1]])] or [{"args": [["i", 1]]}]
    span = rng.choice([0, 3, 10, 40])
    rem = rng.random() < 0.3
    ops = []
    for _ in range(rng.randint(3, 30)):
        cid = rng.randrange(len(cfgs))
        base = {"cache": cid, "cfg": cfgs[cid], "c": 0, "at": float(rng.randint(0, span))}
        r = rng.random()
        if r < 0.86:
            o = {"k": "cached", **base, **rng.choice(keys), "ms": rng.choice([0, 0, 1, 2, 5, 20]),
                 "out": rng.choice(["ok", "ok", "ok", "ok", "err", "err", "canc"])}
            if rem and rng.random() < 0.5:
                o["a"] = 0
            if rng.random() < 0.3:
                o["cancel"] = rng.choice([0, 0.5, 1, 1, 2, 5])
        elif r < 0.93:
            o = {"k": "inval", **base, **rng.choice(keys)}
        elif r < 0.96:
            o = {"k": "clear", **base}
        else:
            o = {"k": "cclose", **base, "canc": rng.random() < 0.4}
            if rng.random() < 0.6:
                o["reopen"] = rng.choice([0, 1, 5])
        if rng.random() < 0.3:
            o["at"] += rng.choice([0.25, 0.5])
        ops.append(o)
        if o["k"] == "cached" and rng.random() < 0.4:  # the same once more
            ops.append(dict(o, at=o["at"] + rng.choice([0, 0, 1, 5, 20, 40]), out=rng.choice(["ok", "err"])))
            ops[-1].pop("cancel", None)
    C.number(ops)
    plan["ops"] = ops
    plan["faults"] = []
    if rem and rng.random() < 0.6:
        plan["faults"] = C.fault_calls(rng, plan, rng.randint(1, 2), kinds=("kill", "reset", "stop"), span_ms=span + 10)
    plan["deadline"] = 30
    plan["settle"] = 2.0
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


def keyof(o):
    conv = {"i": int, "f": float, "s": str, "b": bool}
    f = lambda x: conv[x[0]](x[1])
    a, k = tuple(f(x) for x in o["args"]), tuple((n, f(x)) for n, x in o.get("kw") or [])
    if o["cfg"]["typed"]:
        return a, k, tuple(type(x) for x in a), tuple(type(x) for _, x in k)
    return a, k


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    ops = {o["rid"]: o for o in C.leaf_ops(plan["ops"])}
    who_dead = any(r["kind"] == "kill" for r in H.kind("fault")) and plan["callers"][0]["at"] == "actor"
    if who_dead and any(r["pid"] == H.kind("use")[0]["pid"] for r in H.kind("proc_exit")) if H.kind("use") else True:
        return out
    execs = {r["eid"]: dict(r, end=None, st=None) for r in H.kind("exec")}
    for r in H.kind("exec_end"):
        execs[r["eid"]].update(end=r["i"], endt=r["t"], st=r["st"])
    by = {}
    for e in execs.values():
        if e["by"] in by:
            out.append(Violation("executed twice", f"call {e['by']} started executions {by[e['by']]} and {e['eid']}"))
        by[e["by"]] = e["eid"]
    use = {r["rid"]: r for r in H.kind("use")}
    for cid in {o["cache"] for o in ops.values()}:
        cfg = next(o["cfg"] for o in ops.values() if o["cache"] == cid)
        mx = cfg["max"]
        for r in H.kind("size"):
            if r["cid"] == cid and mx is not None and r["n"] > mx:
                out.append(Violation("too large", f"cache {cid} holds {r['n']} entries, its limit is {mx}"))
        # the cache, as its users may see it: key -> [execution, since]
        evs = [r for r in hist if r["k"] in ("use", "inval", "clear", "cclose", "cclosed", "copen") and r["cid"] == cid]
        cur, touched, closed = {}, {}, None
        closes = []
        kills = [(r["i"], r["cancel"]) for r in evs if r["k"] == "cclose"]
        for r in evs:
            if r["k"] == "inval":
                k = keyof(ops[r["rid"]])
                e = cur.pop(k, None)
                if e is not None and execs.get(e, {}).get("end") is None or e and execs[e]["end"] > r["i"]:
                    sim.probe("invalidated while running")
                continue
            if r["k"] in ("clear", "cclosed"):
                cur.clear()
                if r["k"] == "cclosed":
                    sim.probe("closed")
                    if r["n"]:
                        out.append(Violation("close", f"closed cache {cid} still holds {r['n']} entries"))
                continue
            if r["k"] == "cclose":
                if closed is None:
                    closed = r["i"]
                    closes.append((r["i"], r["cancel"], r["rid"]))
                continue
            if r["k"] == "copen":
                closed = None
                sim.probe("reopened")
                continue
            o, ret = ops[r["rid"]], H.rets.get(r["rid"])
            k = keyof(o)
            d = f"call {o['rid']} of cache {cid} with {k}"
            mine = by.get(o["rid"])
            if ret is None:
                out.append(Violation("hang", f"{d} never ended", remote="a" in o))
                continue
            if closed is not None:
                if ret["st"] == "err" and ret["et"] == "RuntimeError" and mine is None or \
                        ret["st"] == "cancelled" and o["rid"] in H.cancels:
                    sim.probe("call while closed")
                    continue
                out.append(Violation("closed", f"{d}: the cache is closed, gave {ret['st']} {ret.get('et')}"))
                continue
            if mine is None and ret["st"] == "cancelled" and any(c and r["i"] < i < ret["i"] for i, c in kills):
                touched[k] = r["i"]
                continue  # closed before the execution had begun, or while it ran
            prev, before = cur.get(k), touched.get(k, -1)
            touched[k] = r["i"]
            p = execs.get(prev)
            # must an earlier execution be shared or reused?
            must = may = False
            if p is not None:
                may = must = True
                others = {kk for kk, i in touched.items() if i > before and kk != k}
                if mx is not None and len(others) >= mx:
                    must = False
                if mx == 0:
                    must = may = False
                if p["end"] is not None and p["end"] < r["i"] and p["st"] != "ok" and not cfg["cexc"]:
                    # (the outcome is passed on a moment after the end)
                    must, may = False, r["t"] == p["endt"] or r["t"] - p["endt"] < MS // 5
            if mine is not None:
                e = execs[mine]
                if must:
                    out.append(Violation("computed again", f"{d} started execution {mine}, execution {prev} "
                                         f"({'running' if p['end'] is None or p['end'] > r['i'] else p['st']}) was there",
                                         running=p["end"] is None or p["end"] > r["i"]))
                if p is not None and not must:
                    sim.probe("failure retried" if p["st"] != "ok" and not cfg["cexc"] else "evicted")
                cur[k] = mine
                got = mine
            elif p is None or not may:
                if ret["st"] == "cancelled" and o["rid"] in H.cancels and H.cancels[o["rid"]]["t"] - r["t"] < MS // 10:
                    continue  # cancelled before the execution had begun
                if p is not None and ret["st"] != "ok":
                    out.append(Violation("kept failure", f"{d} was not computed again, execution {prev} had failed: "
                                         f"{ret['st']} {ret.get('et')}", st=p["st"]))
                else:
                    out.append(Violation("not computed", f"{d} was not executed, gave {ret['st']} {ret.get('v')}"))
                continue
            else:
                got = prev
                if p["end"] is None or p["end"] > r["i"]:
                    sim.probe("shared an execution")
                else:
                    sim.probe("reused a result")
                if p["st"] == "err":
                    sim.probe("failure shared" if p["end"] > r["i"] else "failure kept")
            # its outcome
            e = execs[got]
            if o["rid"] in H.cancels and ret["st"] == "cancelled":
                if ret["t"] - H.cancels[o["rid"]]["t"] > 20 * MS and not plan["faults"]:
                    out.append(Violation("cancel late", f"{d} was cancelled, ended {(ret['t'] - H.cancels[o['rid']]['t']) / MS} ms later"))
                if e["st"] in ("ok", "err") and e["end"] > ret["i"]:
                    sim.probe("caller cancelled, execution went on")
                continue
            if e["end"] is None:
                out.append(Violation("early", f"{d} gave {ret['st']} {ret.get('v')}, execution {got} never ended"))
                continue
            if e["st"] == "ok":
                good = ret["st"] == "ok" and ret["v"] == [got, None]
            elif e["st"] == "err":
                good = ret["st"] == "err" and ret["et"] == "AppError" and ret["em"].endswith(f"exec {got}', {got})")
            else:
                good = ret["st"] == "cancelled"
            if not good:
                out.append(Violation("outcome", f"{d}: execution {got} ended {e['st']}, the call gave {ret['st']} "
                                     f"{ret.get('et')} {ret.get('em') or ret.get('v')}", exec=e["st"], got=ret["st"]))
            elif ret["t"] - max(e["endt"], r["t"]) > 20 * MS and not plan["faults"]:
                out.append(Violation("late", f"{d}: execution {got} ended at {e['endt'] / MS}, the call at {ret['t'] / MS}"))
        # who may cancel an execution
        for e in execs.values():
            if e["cid"] != cid:
                continue
            if e["st"] == "self-cancelled":
                sim.probe("execution cancelled itself")
            if e["end"] is None or e["st"] == "cancelled":
                if any(c and i > e["i"] for i, c, _ in closes):
                    continue
                if e["st"] is None and reason not in ("done",):
                    continue
                out.append(Violation("execution cancelled", f"execution {e['eid']} of cache {cid} (by call {e['by']}) "
                                     f"{'was cancelled' if e['st'] else 'never ended'}", by_caller=e["by"] in H.cancels))
    for o in ops.values():
        r = H.rets.get(o["rid"])
        if o["k"] == "cclose" and o["rid"] in H.calls:
            if r is None:
                out.append(Violation("hang", f"closing of cache {o['cache']} never ended", remote=False))
            elif r["st"] != "ok" and not ("RuntimeError" == r.get("et") and "is closed" in (r.get("em") or "")):
                out.append(Violation("close", f"closing ({o}) gave {r['st']} {r.get('et')} {r.get('em')}"))
    return out


RULE = ("every execution is started by one call; a call shares or reuses the execution of its key unless that was "
        "invalidated, cleared, evicted or failed uncached; it gives exactly its outcome, at its end; only close(cancel=True) "
        "ends an execution early, cancelled callers end at once")
REAL = "alru_cache and asyncio in one event loop; in part of the runs the cached coroutine calls actors"
ASSUME = ["one event loop per cache; an execution may be repeated once `maxsize` other keys were used since"]
