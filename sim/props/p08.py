"""P08: placement strategies keep what they promise; idle slots are never double booked nor lost."""
import asyncio

from ..world import Violation
from . import common as C

RUNS = {"quick": 900, "thorough": 25000}
IMAGES = 16
NEED = {"placed main": 5, "placed sub": 5, "placed index": 5, "placed label": 5, "placed idle": 20, "placed address": 5,
        "no idle slot": 5, "slot reused": 5, "failed creation": 5, "filled up": 20}
ERRS = {"app": "app:", "value": "value:", "key": "key:", "kw": "kw:", "nopickle": "pickle"}


def gen(rng, tier, i):
    n = rng.randint(1, 4)
    labels = [rng.choice([None, "main", "a"])] + [rng.choice(["a", "a", "b"]) for _ in range(n)]
    plan = {"pools": [{"host": 0, "n": n, "kw": {"labels": labels}}], "actors": [], "callers": []}
    for w in range(rng.randint(2, 4)):
        r = rng.random()
        if r < 0.5:
            c = {"who": w, "at": "actor", "pool": 0, "slot": rng.randrange(n + 1)}
        elif r < 0.7:
            c = {"who": w, "at": "main", "pool": 0}
        else:
            c = {"who": w, "at": "client", "host": rng.choice([0, 3])}
        plan["callers"].append(c)
    plan["knobs"] = C.swarm(rng, heavy=False)
    mix = rng.choice(["idle", "idle", "all"])
    marks = rng.choice([["m"], ["m"], ["m", "k"], [None, "m"]])
    errs, cancels = rng.random() < 0.5, rng.random() < 0.4
    span = rng.choice([1, 10, 60])
    ops = []
    for u in range(rng.randint(4, 16)):
        o = {"k": "create", "uid": f"n{u}", "pool": 0, "slot": "main"}
        kd = "idle" if rng.random() < (0.8 if mix == "idle" else 0.3) else rng.choice(
            ["main", "sub", "random", "index", "label", "address"])
        if kd == "idle":
            o["strat"] = {"k": "idle", "label": rng.choice([x for x in labels if x]), "mark": rng.choice(marks)}
        elif kd == "index":
            o["strat"] = {"k": "index", "i": rng.randrange(n + 1)}
        elif kd == "label":
            o["strat"] = {"k": "label", "label": rng.choice([x for x in labels if x])}
        elif kd == "address":
            o["slot"] = rng.randrange(n + 1)
        else:
            o["strat"] = {"k": kd}
        kw = {}
        if rng.random() < 0.5:
            kw["create_ms"] = rng.choice([1, 5, 30])
        if rng.random() < 0.2:
            kw["destroy_ms"] = rng.choice([1, 20])
        if errs and rng.random() < 0.35:
            kw[rng.choice(["init_err", "create_err", "create_err"])] = rng.choice(list(ERRS)[:4])
        if kw:
            o["kw"] = kw
        if errs and rng.random() < 0.06:
            o["args"] = ["nopickle"]
        if cancels and rng.random() < 0.4:
            o["cancel"] = rng.choice([0, 0.3, 1, 3, 10, 25])
        d = {"k": "destroy", "uid": o["uid"], "pool": 0, "slot": "main"}
        if rng.random() < 0.4:
            d["byref"] = True
        s = [o]
        if rng.random() < 0.6:
            if rng.random() < 0.5:
                d["at"] = rng.choice([0.2, 3, 20])
            s.append(d)
        ops.append({"k": "seq", "ops": s, "c": rng.randrange(len(plan["callers"])),
                    "at": round(rng.random() * span, 2)})
    C.number(ops)
    plan["ops"] = ops
    plan["deadline"] = 40
    plan["settle"] = 3.0
    plan["after"] = "p08"
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


async def after(ctx, sim, plan):
    """Who is there?  Then every idle slot that should be free is booked."""
    xo, A = ctx.xo, ctx.A
    p = sim.pools[0]
    keys = {}
    for o in C.leaf_ops(plan["ops"]):
        if o["k"] != "create":
            continue
        addr = p["addrs"][o["slot"] % len(p["addrs"])] if o.get("slot") != "main" else p["addr"]
        ref = xo.create_actor_ref(addr, o["uid"].encode())
        await ctx.call("there", asyncio.wait_for(xo.has_actor(ref), 20), uid=o["uid"])
        if (o.get("strat") or {}).get("k") == "idle":
            keys[o["strat"]["label"], o["strat"]["mark"]] = o["strat"]
    for key, st in sorted(keys.items(), key=str):
        for x in range(len(p["addrs"]) + 1):
            uid = f"fill{key[0]}{key[1]}{x}"

            async def go():
                r = await xo.create_actor(A.T, uid, uid=uid, address=p["addr"], allocate_strategy=A.strategy(st))
                await r.do(-1)
                return r.address
            s, v = await ctx.call("fill", asyncio.wait_for(go(), 20), key=list(key))
            if s != "ok":
                break


C.AFTER["p08"] = after


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    up = H.kind("pool_up")[0]
    addrs = up["subs"]
    labels = plan["pools"][0]["kw"]["labels"]
    by_label = {}
    for a, lb in zip(addrs, labels):
        by_label.setdefault(lb, []).append(a)
    born = {r["uid"]: r for r in H.kind("actor_up")}
    hook = {r["uid"]: r for r in H.kind("hook_create")}
    died = {r["uid"]: r for r in H.kind("actor_down")}
    there = {r["uid"]: r for r in H.kind("ret") if r.get("op") == "there"}
    INF = 1 << 60
    ops = []
    for o in C.leaf_ops(plan["ops"]):
        cl, r = H.calls.get(o["rid"]), H.rets.get(o["rid"])
        if cl is None:
            continue
        if r is None:
            out.append(Violation("hang", f"{o['k']} {o['rid']} of {o['uid']} never ended", op=o["k"]))
            continue
        ops.append((o, cl, r))
    creates = {o["uid"]: (o, cl, r) for o, cl, r in ops if o["k"] == "create"}
    destroys = {o["uid"]: (o, cl, r) for o, cl, r in ops if o["k"] == "destroy"}

    def key(o):
        st = o.get("strat") or {}
        return (st["label"], st["mark"]) if st.get("k") == "idle" else None

    def occupancy(u):
        """(address or None if unknown, from, until) for a creation."""
        o, cl, r = creates[u]
        if r["st"] == "ok":
            d = destroys.get(u)
            return r["v"][0], cl["i"], (d[2]["i"] if d and d[2]["st"] == "ok" else INF)
        if r["st"] in ("cancelled", "aborted"):
            return None, cl["i"], INF
        return None, cl["i"], r["i"]

    seen = {}
    for u, (o, cl, r) in creates.items():
        st = o.get("strat") or {"k": "address"}
        d = f"creation of {u} with {st}"
        want_err = (o.get("kw", {}).get("init_err") or o.get("kw", {}).get("create_err"))
        if r["st"] == "ok":
            if want_err:
                out.append(Violation("odd", f"{d} succeeded although it cannot"))
                continue
            a = r["v"][0]
            if st["k"] == "address":
                allowed = [addrs[o["slot"] % len(addrs)]]
            elif st["k"] == "main":
                allowed = addrs[:1]
            elif st["k"] == "sub":
                allowed = addrs[1:]
            elif st["k"] == "random":
                allowed = addrs
            elif st["k"] == "index":
                allowed = [addrs[st["i"]]]
            else:
                allowed = by_label.get(st["label"], [])
            if a not in allowed or hook.get(u, {}).get("addr") != a:
                out.append(Violation("misplaced", f"{d} gave {a} (runs at {hook.get(u, {}).get('addr')}), "
                                     f"allowed {allowed}", strat=st["k"]))
            sim.probe("placed " + st["k"])
            if key(o):
                if any(k2 == (key(o), a) for k2 in seen.values()):
                    sim.probe("slot reused")
                seen[u] = (key(o), a)
        elif r["st"] == "err":
            if "NoIdleSlot" in r["mro"] and st["k"] == "idle":
                sim.probe("no idle slot")
                free, unknown = set(by_label.get(st["label"], [])), 0
                for u2 in creates:
                    if u2 == u or key(creates[u2][0]) != key(o):
                        continue
                    a2, s2, e2 = occupancy(u2)
                    if s2 > r["i"] or e2 < cl["i"]:
                        continue
                    if "NoIdleSlot" in creates[u2][2].get("mro", ()):
                        continue
                    if a2 is None:
                        unknown += 1
                    else:
                        free.discard(a2)
                if len(free) > unknown:
                    out.append(Violation("no slot", f"{d} found no idle slot, though {sorted(free)} were free"))
            elif want_err and ERRS[want_err] in r["em"] or o.get("args") and "pickle" in r["em"]:
                sim.probe("failed creation")
            else:
                out.append(Violation("odd", f"{d} failed with {r['et']} {r['em']}", et=r["et"]))
        elif o["rid"] not in H.cancels:
            out.append(Violation("odd", f"{d} was cancelled by nobody"))
        t = there.get(u)
        if t is None:
            continue
        if t["st"] != "ok":
            out.append(Violation("odd", f"asking for {u} gave {t.get('et')} {t.get('em')}"))
            continue
        dd = destroys.get(u)
        if t["v"] and (r["st"] == "err" or dd and dd[2]["st"] == "ok"):
            out.append(Violation("left behind", f"{u} is there, though its creation ended as {r['st']} {r.get('et')} "
                                 f"and its destruction as {dd and dd[2]['st']}"))
        if not t["v"] and r["st"] == "ok" and not (dd and dd[2]["st"] == "ok"):
            out.append(Violation("lost", f"{u} is not there, though it was created and not destroyed"))
    # exclusive use
    life = [(key(o), born[u]["addr"], u, born[u]["i"], died[u]["i"] if u in died else INF)
            for u, (o, cl, r) in creates.items() if key(o) and u in born and r["st"] == "ok"]
    for n, x in enumerate(life):
        for y in life[:n]:
            if x[:2] == y[:2] and x[3] < y[4] and y[3] < x[4]:
                out.append(Violation("double booking", f"{y[2]} and {x[2]} (label, mark {x[0]}) share {x[1]}"))
    # the end: what is free can be booked
    if out or len(there) < len(creates):
        return out
    fills = {}
    for r in H.kind("ret"):
        if r.get("op") == "fill":
            fills.setdefault(tuple(r["key"]), []).append(r)
    for k, rs in fills.items():
        used = {hook[u]["addr"] for u, (o, cl, r) in creates.items() if key(o) == k and there[u]["v"]}
        want = set(by_label.get(k[0], [])) - used
        got = [r["v"] for r in rs if r["st"] == "ok"]
        bad = [r for r in rs if r["st"] != "ok" and r.get("et") != "NoIdleSlot"]
        if bad:
            out.append(Violation("odd", f"booking the free slots of {k} failed with {bad[0].get('et')} {bad[0].get('em')}"))
        elif sorted(got) != sorted(want):
            out.append(Violation("lost slot", f"with all quiet the free slots of {k} are {sorted(want)}, "
                                 f"but those that could be booked are {sorted(got)}"))
        else:
            sim.probe("filled up")
    return out
