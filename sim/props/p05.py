"""P05: every call ends after its peer is gone; healthy pools are not affected; service resumes."""
from ..kernel import SEC
from ..world import Violation
from . import common as C

RUNS = {"quick": 500, "thorough": 15000}
IMAGES = 20
NEED = {"ended with error": 1, "healthy call ok": 1, "final call ok": 1, "SIGKILL": 1, "connecting to a silent host": 20}
HEALTHY_S = 4.0
DARK_S = 12.0  # a connection attempt gives up after 8 s


def gen_op(rng, plan, u):
    na = len(plan["actors"])
    a = rng.randrange(na)
    ms = rng.choice([0, 0, 1, 5, 60])
    r = rng.random()
    if r < 0.35:
        o = {"k": "send", "a": a, "m": rng.choice(["do", "do", "sdo", "free", "bplain"]), "ms": ms,
             "pay": C.gen_pay(rng)}
        if rng.random() < 0.2:
            o["out"] = C.gen_pay(rng)
        if rng.random() < plan["p_cancel"]:
            o["cancel"] = rng.choice([0, 0.5, 3, 20])
            if o["m"] == "free" and rng.random() < 0.8:
                o["ms"] = rng.choice([60, 2000])
                o["onc"] = rng.choice(["deaf", "slow", "swallow"])
    elif r < 0.42:
        o = {"k": "batch", "a": a, "m": rng.choice(["bplain", "bown"]),
             "items": [{"ms": rng.choice([0, 1])} for _ in range(rng.randint(1, 3))]}
    elif r < 0.47:
        o = {"k": "tell", "a": a, "m": "do", "ms": ms}
    elif r < 0.52:
        o = {"k": "relay", "a": a, "b": rng.randrange(na), "ms": ms}
        if o["b"] <= a:
            o["tell"] = True
    elif r < 0.58:
        o = {"k": "gen", "a": a, "m": rng.choice(["gen", "agen"]), "n": rng.choice([1, 3, 8]), "ms": rng.choice([0, 1])}
    elif r < 0.63:
        o = {"k": "yld", "a": a, "steps": [{"k": "sleep", "ms": rng.choice([0, 2])} for _ in range(2)]}
    else:
        p, s = rng.randrange(len(plan["pools"])), rng.randrange(4)
        kd = rng.choice(["create", "create", "has", "ref", "calluid", "destroy"])
        if kd in ("has", "ref", "calluid"):
            b = plan["actors"][a]
            o = {"k": kd, "uid": f"a{a}", "pool": b["pool"]}
            if rng.random() < 0.6:
                o["slot"] = b["slot"]
        else:
            o = {"k": "create", "uid": f"n{u}", "pool": p, "slot": s}
            if rng.random() < 0.4:
                o["kw"] = {"create_ms": rng.choice([1, 20])}
            if kd == "destroy":
                if rng.random() < 0.4:
                    o["kw"] = {"destroy_ms": rng.choice([1, 20])}
                o = {"k": "seq", "ops": [o, {"k": "destroy", "uid": f"n{u}", "pool": p, "slot": s, "byref": True}]}
    return o


def gen(rng, tier, i):
    plan = C.gen_topology(rng, npools=(2, 3), nact=(2, 5), ncall=(2, 4))
    plan["knobs"] = C.swarm(rng)
    v = plan["victim"] = rng.randrange(len(plan["pools"]))
    for p in plan["pools"]:
        p["kw"] = {"auto_recover": rng.choice(["actor", "actor", "process", False])}
    plan["pools"][v]["stop_on"] = "stopvictim"
    plan["p_cancel"] = rng.choice([0.1, 0.1, 0.7])
    ops = []
    for u in range(rng.randint(8, 36)):
        o = gen_op(rng, plan, u)
        o["c"] = rng.randrange(len(plan["callers"]))
        o["at"] = round(rng.random() * rng.choice([5, 60, 60, 3000]), 2)
        ops.append(o)
    dark = plan["dark"] = rng.random() < 0.15
    if dark:
        # a host that stays silent for long: callers without a connection to it are told in time
        t0 = round(rng.random() * 60, 2)
        w = len(plan["callers"])
        plan["callers"].append({"who": w, "at": "client", "host": 3})
        for j in range(rng.randint(1, 4)):
            o = gen_op(rng, plan, 100 + j)
            o["c"] = w
            o["at"] = round(t0 + rng.choice([0, 1, 5, 300, 4000]) + rng.random() * 5, 2)
            ops.append(o)
    for c in plan["callers"]:
        for a in range(len(plan["actors"])):
            ops.append({"k": "send", "a": a, "m": "do", "c": c["who"], "on": "final"})
    C.mainrefs(rng, ops, 0.5)
    C.number(ops)
    plan["ops"] = ops
    fs = []
    for _ in range(rng.randint(1, 3)):
        kd = rng.choice(["kill", "kill", "killmain", "stop", "stopmain", "partition", "reset", "reset", "poolstop"])
        trg = {"at_ms": round(rng.random() * rng.choice([15, 60, 1500]), 3)}
        if rng.random() < 0.5:
            trg = {"on": {"k": rng.choice(["start", "end", "call", "ret", "hook_create"])},
                   "nth": rng.randint(1, 15), "delay_us": rng.choice([0, 30, 200, 1000])}
        if kd in ("kill", "stop"):
            f = {"kind": kd, "target": {"child_of": f"main{v}", "n": rng.randrange(3)}}
        elif kd == "killmain":
            f = {"kind": "kill", "target": f"main{v}", "main_ok": True}
        elif kd == "stopmain":
            f = {"kind": "stop", "target": f"main{v}", "main_ok": True}
        elif kd == "partition":
            b = rng.choice([x for x in list(range(len(plan["pools"]))) + [3] if x != v])
            f = {"kind": "partition", "a": v, "b": b}
        elif kd == "reset":
            f = {"kind": "reset", "host": v, "n": rng.randrange(8)}
        else:
            f = {"kind": "event", "name": "stopvictim"}
        if f["kind"] in ("stop", "partition"):
            f["for_ms"] = rng.choice([5, 60, 700, 2500, 5000])
        f["trigger"] = trg
        fs.append(f)
    if dark:
        fs = [{"kind": "partition", "a": v, "b": 3, "for_ms": 25000, "trigger": {"at_ms": t0}}]
    plan["faults"] = fs
    plan["final_ms"] = 45000 if dark else 12000
    plan["faults_until_ms"] = 26000 if dark else 5000
    plan["deadline"] = 75 if dark else 40
    plan["settle"] = 0.5
    plan["probe"] = True
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    v = plan.get("victim")
    pools = plan["pools"]
    vhost = pools[v]["host"] if v is not None and v < len(pools) else None
    exits = {r["pid"]: r for r in H.kind("proc_exit")}
    done_i = (H.kind("callers_done") or [{"i": 1 << 60}])[0]["i"]
    home = {}
    for r in H.kind("actor_up"):
        home.setdefault(r["uid"], r["pid"])
    pids = {r["pool"]: [r["pid"]] + r["pids"] for r in H.kind("pool_up")}
    vpids = set(pids.get(v, ()))
    callers = {c["who"]: c for c in plan["callers"]}
    affected = {f"a{j}" for j, a in enumerate(plan["actors"]) if a["pool"] == v}
    dark = None
    if plan.get("dark"):
        dark = next((r["t"] for r in H.kind("fault") if r["kind"] == "partition"), None)
    leaf = C.leaf_ops(plan["ops"])
    for o in leaf:
        if o["k"] == "relay" and f"a{o['b']}" in affected:
            affected.add(f"a{o['a']}")
    stopping = {r["pool"] for r in H.kind("stopping")}
    main_dead = {i for i in pids if pids[i][0] in exits and exits[pids[i][0]]["i"] < done_i}
    for o in leaf:
        cl, r = H.calls.get(o["rid"]), H.rets.get(o["rid"])
        if cl is None:
            continue
        d = f"{o['k']} {o['rid']} {o.get('m') or o.get('uid')}"
        c = callers.get(o["c"])
        gone = cl["pid"] in exits and exits[cl["pid"]]["i"] < done_i
        if r is None:
            if gone:
                continue  # nobody is left to be answered
            out.append(Violation("hang", f"{d} (called in process {cl['pid']}) never ended",
                                 op=o["k"], at=c and c["at"]))
            continue
        sim.probe("ended with error" if r["st"] == "err" else "ended " + r["st"])
        here = cl["pid"] in vpids or c["at"] == "client" and c.get("host") == vhost
        if o["k"] in ("create", "destroy"):
            tgt_bad = o["pool"] == v
        elif o["k"] in ("has", "ref", "calluid"):
            tgt_bad = o["pool"] == v or o["uid"] in affected
        else:
            tgt_bad = f"a{o['a']}" in affected
            if o["k"] == "relay":
                tgt_bad = tgt_bad or f"a{o['b']}" in affected
        if dark is not None and c["at"] == "client" and c.get("host") == 3 and dark < cl["t"] < dark + 12 * SEC:
            if (r["t"] - cl["t"]) / SEC > DARK_S:
                out.append(Violation("silent host", f"{d} needed a connection to a host that does not answer, and "
                                     f"took {(r['t'] - cl['t']) / SEC:.1f} s", op=o["k"]))
            sim.probe("connecting to a silent host")
        if not here and not tgt_bad:
            dt = (r["t"] - cl["t"]) / SEC
            ok = r["st"] == "ok" or r["st"] == "cancelled" and o["rid"] in H.cancels
            if not ok:
                out.append(Violation("healthy failed", f"{d}, which has nothing to do with the failing pool, gave "
                                     f"{r['st']} {r.get('et')} {r.get('em')}", et=r.get("et")))
            elif dt > HEALTHY_S:
                out.append(Violation("healthy stalled", f"{d}, which has nothing to do with the failing pool, took "
                                     f"{dt:.1f} s", op=o["k"]))
            else:
                sim.probe("healthy call ok")
        elif o.get("on") == "final":
            a = plan["actors"][o["a"]]
            hp = home.get(f"a{o['a']}")
            if hp in exits and exits[hp]["i"] < r["i"] or a["pool"] in stopping or a["pool"] in main_dead:
                continue
            if cl["pid"] in vpids and (v in stopping or v in main_dead):
                continue
            if r["st"] != "ok":
                out.append(Violation("not restored", f"long after the faults a call to a{o['a']}, whose process "
                                     f"lives, gave {r['st']} {r.get('et')} {r.get('em')}", et=r.get("et")))
            else:
                sim.probe("final call ok")
    for p in H.kind("ret"):
        if p.get("op") != "probe" or p["st"] == "ok":
            continue
        pid = _pid_of(H, p["pool"], p["addr"])
        if p["pool"] == v and (v in stopping or v in main_dead or pid is None or pid in exits):
            continue
        out.append(Violation("dead pool", f"{p['addr']} no longer serves: {p.get('et')} {p.get('em')}",
                             et=p.get("et")))
    return out


def _pid_of(H, pool, addr):
    """The process that first served an address (None: not known to be the original one)."""
    for r in H.kind("pool_up"):
        if r["pool"] == pool:
            if addr == r["addr"]:
                return r["pid"]
            for u in H.kind("actor_up"):
                if u["addr"] == addr and u["pid"] in r["pids"]:
                    return u["pid"]
    return None
