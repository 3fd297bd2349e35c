"""P17: processes that are added and removed at run time form a consistent pool."""
import asyncio

from ..kernel import SEC
from ..world import Violation
from . import common as C
from .p07 import INF
from .p09 import deaths_of

RUNS = {"quick": 700, "thorough": 20000}
IMAGES = 24
NEED = {"added": 200, "removed": 100, "added to a pool without sub processes": 20, "adding failed": 20,
        "adding cancelled": 10, "placed on an added process": 50, "added process recovered": 10,
        "removed while it was being replaced": 3, "overlapping additions": 20, "stopped": 100}
GONE = ("ServerClosed", "ConnectionError", "OSError", "ActorNotExist", "EOFError")
GONE_S = 20


def gen(rng, tier, i):
    n = rng.choice([0, 0, 1, 1, 2, 3])
    mode = rng.choice(["actor", "actor", "process", False])
    labels = [None] + [rng.choice([None, "x", "y"]) for _ in range(n)]
    plan = {"pools": [{"host": 0, "n": n, "kw": {"auto_recover": mode, "labels": labels}, "stop_on": "stop0"}],
            "actors": [], "callers": []}
    if rng.random() < 0.3:
        plan["pools"].append({"host": rng.choice([0, 1]), "n": 1})
    for j in range(rng.randint(1, 3)):
        plan["actors"].append({"pool": 0, "slot": rng.randrange(n + 1)})
    plan["callers"].append({"who": 0, "at": "main", "pool": 0})
    for w in range(1, rng.randint(2, 4)):
        r = rng.random()
        if r < 0.3 and len(plan["pools"]) > 1:
            c = {"who": w, "at": "actor", "pool": 1, "slot": rng.randrange(2)}
        elif r < 0.45:
            c = {"who": w, "at": "actor", "pool": 0, "slot": 0}
        else:
            c = {"who": w, "at": "client", "host": rng.choice([0, 3])}
        plan["callers"].append(c)
    nc = len(plan["callers"])
    plan["knobs"] = C.swarm(rng, heavy=False)
    if rng.random() < 0.4:
        plan["knobs"]["spawn_ms"] = rng.choice([[1, 10], [30, 400], [300, 1500]])
    span = rng.choice([300, 1500, 4000])
    faulty = rng.random() < 0.6
    ops, toks = [], []
    removable = list(range(1, n + 1))
    for x in range(rng.randint(1, 4)):
        t = f"t{x}"
        toks.append(t)
        o = {"k": "append", "tok": t, "pool": 0, "label": rng.choice([None, "x", "y"]), "c": 0,
             "at": round(rng.random() * span, 2)}
        if rng.random() < 0.12:
            o["cancel"] = round(rng.random() * rng.choice([5, 150, 1000]), 2)
        ops.append(o)
    for x in range(rng.randint(3, 16)):
        r = rng.random()
        if r < 0.22:
            o = {"k": "remove", "pool": 0, "c": 0}
            o["slot"] = rng.choice(toks) if rng.random() < 0.7 or not removable else rng.choice(removable)
            if rng.random() < 0.3:
                o["kw"] = {"force": True}
            elif rng.random() < 0.3:
                o["kw"] = {"timeout": rng.choice([0.01, 0.5, 5])}
            if rng.random() < 0.08:
                o["cancel"] = rng.choice([0, 1, 30, 500])
        elif r < 0.45:
            o = {"k": "create", "uid": f"u{x}", "pool": 0, "slot": rng.choice(toks + ["main"])}
            if o["slot"] == "main":
                o["strat"] = rng.choice([{"k": "sub"}, {"k": "random"}, {"k": "label", "label": "x"},
                                         {"k": "label", "label": "y"}, {"k": "idle", "label": "x", "mark": "m"},
                                         {"k": "main"}])
            if rng.random() < 0.4:
                o["kw"] = {"create_ms": rng.choice([1, 50, 400])}
            if rng.random() < 0.5:
                m = {"uid": o["uid"], "pool": 0, "slot": rng.choice([o["slot"], "main"])}
                o = {"k": "seq", "ops": [o, dict(m, k="calluid", ms=rng.choice([0, 1, 30])),
                                         dict(m, k=rng.choice(["has", "destroy", "calluid"]))]}
        elif r < 0.6:
            o = {"k": "config", "pool": 0, "slot": rng.choice(toks + ["main"] + list(range(n + 1)))}
        elif r < 0.8:
            j = rng.randrange(len(plan["actors"]))
            o = {"k": "send", "a": j, "m": rng.choice(["do", "free", "sdo"]), "ms": rng.choice([0, 0, 1, 50])}
        else:
            o = {"k": "waitrec", "pool": 0, "slot": rng.choice(toks), "uids": [], "new": f"w{x}"}
        o.setdefault("c", rng.randrange(nc))
        sl = o.get("slot") or o.get("ops", [{}])[0].get("slot")
        if isinstance(sl, str) and sl != "main" or rng.random() < 0.3:
            o["on"] = "app:" + (sl if isinstance(sl, str) and sl != "main" else rng.choice(toks))
            o["at"] = 0 if rng.random() < 0.4 else round(rng.random() * rng.choice([5, 50, span]), 2)
        else:
            o["at"] = round(rng.random() * span, 2)
        ops.append(o)
    C.number(ops)
    plan["ops"] = ops
    fs = []
    if faulty:
        for _ in range(rng.randint(1, 3)):
            trg = {"at_ms": round(rng.random() * span * 1.3, 2)}
            if rng.random() < 0.5:
                trg = {"on": rng.choice([{"k": "spawn"}, {"k": "listen"}, {"k": "ret", "op": "append"}, {"k": "removing"},
                                         {"k": "proc_exit"}, {"k": "hook_create"}, {"k": "call", "op": "append"}]),
                       "nth": rng.randint(1, 3), "delay_us": rng.choice([0, 100, 3000, 30000, 150000, 500000])}
            r = rng.random()
            if r < 0.6:
                f = {"kind": "kill", "target": {"child_of": "main0", "n": rng.randrange(5)}}
            elif r < 0.75:
                f = {"kind": "stop", "target": {"child_of": "main0", "n": rng.randrange(5)},
                     "for_ms": rng.choice([5, 300, 1500])}
            else:
                f = {"kind": "knob", "name": rng.choice(["spawn_die_p", "spawn_fail_p"]),
                     "v": rng.choice([0.4, 1.0]), "for_ms": rng.choice([100, 1000])}
            f["trigger"] = trg
            fs.append(f)
    plan["faults"] = fs
    plan["faults_until_ms"] = span + 1500
    plan["quiet"] = True
    plan["deadline"] = 45
    plan["settle"] = 8.0
    plan["after"] = "p17"
    if rng.random() < 0.15:  # stopped in the midst of it
        fs.append({"kind": "event", "name": "stop0", "trigger": {"at_ms": round(rng.random() * span * 1.2, 2)}})
        plan["early"] = True
        plan["deadline"] = span / 1000 + 8
        plan["quiet"] = False
        plan["settle"] = 0
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


async def after(ctx, sim, plan):
    xo, A = ctx.xo, ctx.A
    p = sim.pools[0]

    async def ask(kind, co, **kw):
        try:
            r = ["ok", await asyncio.wait_for(co, 20)]
        except Exception as e:
            r = ["err", [c.__name__ for c in type(e).__mro__], f"{type(e).__name__} {e}"[:200]]
        ctx.rec(kind, r=r, **kw)

    async def cfg(a):
        return (await xo.get_pool_config(a)).get_external_addresses()

    async def use(a, uid):
        r = await xo.create_actor(A.T, uid, uid=uid, address=a)
        v = await r.do(-1)
        m = await xo.actor_ref(address=p["addr"], uid=uid)
        return [r.address, v[1], m.address]

    async def place(lb, uid):
        r = await xo.create_actor(A.T, uid, uid=uid, address=p["addr"], allocate_strategy=A.strategy(
            {"k": "idle", "label": lb, "mark": "last"}))
        return [r.address, (await r.do(-1))[1]]

    async def find(a, uid):
        r = await xo.actor_ref(address=a, uid=uid)
        return [r.address, (await r.do(-1))[1]]

    if not plan.get("early"):
        members = dict([("main", p["addr"])] + [(str(i), a) for i, a in enumerate(p["addrs"]) if i])
        members.update(p.get("toks", {}))
        ctx.rec("final", toks=members)
        for t, a in members.items():
            await ask("fin_config", cfg(a), addr=a, tok=t)
            await ask("fin_use", use(a, f"last{t}"), addr=a, tok=t)
        for lb in ("x", "y"):
            for i in range(8):
                n = len(sim.k.history)
                await ask("fin_place", place(lb, f"last{lb}{i}"), label=lb)
                if sim.k.history[-1]["r"][0] != "ok":
                    break
        for o in C.leaf_ops(plan["ops"]):
            if o["k"] == "create":
                await ask("fin_find", find(p["addr"], o["uid"]), rid=o["rid"])
    ctx.rec("fin_stop")
    sim.event("stop0").set()
    for _ in range(160):
        if any(r["k"] == "ret" and r["op"] == "pool_stop" for r in sim.k.history):
            break
        await asyncio.sleep(0.25)
    await asyncio.sleep(0.5)
    ctx.rec("left", pids=[c.pid for c in sim.k.procs.values() if c.parent is p["proc"] and not c.dead])


C.AFTER["p17"] = after


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    finish = H.kind("finish")[0]["i"] if H.kind("finish") else INF
    endi = next((r["i"] for r in hist if r["k"] in ("stopping", "fin_stop") and r.get("pool", 0) == 0), INF)
    mode = plan["pools"][0]["kw"]["auto_recover"]
    up = next(r for r in H.kind("pool_up") if r["pool"] == 0)
    n = plan["pools"][0]["n"]
    main = up["subs"][0]
    ops = C.leaf_ops(plan["ops"])
    rets = {o["rid"]: H.rets.get(o["rid"]) for o in ops}
    labels = dict(zip(up["subs"], plan["pools"][0]["kw"]["labels"]))
    # members: address -> (added from, surely from, surely until, until)
    M = {a: [0, 0, INF, INF] for a in up["subs"]}
    toks = {i: a for i, a in enumerate(up["subs"])}
    toks["main"] = main
    for o in ops:
        if o["k"] != "append" or o["rid"] not in H.calls:
            continue
        r = rets[o["rid"]]
        if r is not None and r["st"] == "ok":
            M[r["v"]] = [H.calls[o["rid"]]["i"], r["i"], INF, INF]
            toks[o["tok"]] = r["v"]
            labels[r["v"]] = o.get("label")
    # an addition that was cancelled late has an effect, but nobody was told the address
    limbo = set()
    canc = [o for o in ops if o["k"] == "append" and (rets.get(o["rid"]) or {}).get("st") in ("cancelled", "aborted")]
    if canc:
        first = min(H.calls[o["rid"]]["i"] for o in canc)
        for k in H.kind("spawn"):
            if k["parent"] == up["pid"] and k["i"] > first:
                for a in sim.k.procs[k["pid"]].listened:
                    if a not in M:
                        M[a] = [k["i"], INF, -1, INF]
                        limbo.add(a)
                        labels[a] = canc[0].get("label")
    vague = len({o.get("label") for o in canc}) > 1 and limbo
    rem = {r["rid"]: r for r in H.kind("removing")}
    for o in ops:
        if o["k"] != "remove" or o["rid"] not in rem:
            continue
        r, a = rets[o["rid"]], rem[o["rid"]]["addr"]
        M[a][2] = min(M[a][2], rem[o["rid"]]["i"])
        if r is not None and r["st"] == "ok":
            M[a][3] = min(M[a][3], r["i"])
    procs = deaths_of(sim, hist, M)
    exits = {r["pid"]: r for r in H.kind("proc_exit")}
    addr_of = {pid: a for a, ps in procs.items() for _, pid in ps}
    fkill = {r["pid"] for r in H.kind("fault") if r["kind"] == "kill"}
    died = {a: [i for i, pid in procs[a] if i is not None and pid in fkill and i < min(finish, endi)] for a in M}
    crashed = any(died.values())
    stalled = any(r["kind"] == "stop" for r in H.kind("fault"))
    nfail = sim.k.counters.get("fork failure", 0) + sum(
        1 for r in H.kind("spawn") if r["parent"] == up["pid"] and r["pid"] not in addr_of)
    kids = [r for r in H.kind("spawn") if r["parent"] == up["pid"]]

    def sure(a, s, e):
        return a in M and M[a][1] <= s and M[a][2] >= e

    def maybe(a, s, e):
        return a in M and M[a][0] <= e and M[a][3] >= s

    def hit(a, e):
        return any(i < e for i in died.get(a, ()))
    seqs = {id(x): [y for y in o["ops"]] for o in plan["ops"] if o["k"] == "seq" for x in o["ops"]}
    placed = {}
    for o in ops:
        cl, r = H.calls.get(o["rid"]), rets.get(o["rid"])
        if cl is None:
            continue
        d = f"{o['k']} {o['rid']}"
        if r is None:
            if cl["pid"] in exits and exits[cl["pid"]]["i"] < finish:
                continue
            out.append(Violation("hang", f"{d} {o.get('slot', '')} never ended", op=o["k"], n0=n == 0))
            continue
        if r["st"] == "err" and r["et"] == "NoSuchProcess" or cl["i"] > endi or r["i"] > endi:
            continue
        if r["st"] == "cancelled" and o["rid"] in H.cancels:
            if o["k"] == "append":
                sim.probe("adding cancelled")
            continue
        s, e = cl["i"], r["i"]
        bad = Violation("failed: " + o["k"], f"{d} {o.get('slot') or o.get('tok') or ''} {o.get('strat', '')} gave "
                        f"{r['st']} {r.get('et')} {r.get('em')}", et=r.get("et"))
        # a process that shuts down cancels what it runs and still answers so
        gone = r["st"] == "cancelled" or r["st"] == "err" and any(x in r.get("mro", ()) for x in GONE)
        if o["k"] == "append":
            if r["st"] == "ok":
                sim.probe("added")
                if n == 0:
                    sim.probe("added to a pool without sub processes")
                if any(q is not o and q["k"] == "append" and q["rid"] in H.calls and H.calls[q["rid"]]["i"] < e
                       and (rets[q["rid"]] or {"i": INF})["i"] > s for q in ops):
                    sim.probe("overlapping additions")
            else:
                # only if its own process could not be started
                own = [k for k in kids if s < k["i"] < e and k["pid"] in exits and exits[k["pid"]]["i"] < e]
                if not own and not sim.k.counters.get("fork failure", 0):
                    out.append(bad)
                sim.probe("adding failed")
            continue
        if o["k"] == "remove":
            a = rem[o["rid"]]["addr"]
            if r["st"] == "ok":
                sim.probe("removed")
                bads = [pid for i, pid in procs[a] if i is None or i > e]
                if bads:
                    out.append(Violation("not removed", f"{d}: process {bads} serves {a}, or did so later",
                                         later=sim.k.procs[bads[0]].born > r["t"]))
                ds = [i for i in died[a] if i < s]
                if ds and len(procs[a]) == 1 or any(k["i"] < s and (exits.get(k["pid"]) or {"i": INF})["i"] > s
                                                    and k["i"] > up["i"] for k in kids if k["pid"] not in addr_of):
                    sim.probe("removed while it was being replaced")
            elif not ("KeyError" in r.get("mro", ()) or "ValueError" in r.get("mro", ())) or not any(
                    q["k"] == "remove" and q is not o and q["rid"] in rem and rem[q["rid"]]["addr"] == a
                    and rem[q["rid"]]["i"] < e for q in ops) and a != main:
                out.append(bad)
            continue
        if o["k"] == "config":
            a = toks.get(o["slot"])
            if r["st"] != "ok":
                if not (gone and (not sure(a, s, e) or hit(a, e))):
                    out.append(bad)
                continue
            got = set(r["v"])
            if len(got) != len(r["v"]):
                out.append(Violation("config", f"{d}: {r['v']} of {a}"))
            for x in M:
                if sure(x, s, e) and x not in got:
                    out.append(Violation("config lacks", f"{d}: the configuration of {a} does not list {x}"))
                if not maybe(x, s, e) and x in got:
                    out.append(Violation("config stale", f"{d}: the configuration of {a} lists {x}"))
            if got - set(M):
                out.append(Violation("config odd", f"{d}: the configuration of {a} lists {got - set(M)}"))
            continue
        if o["k"] == "send":
            a = up["subs"][plan["actors"][o["a"]]["slot"] % len(up["subs"])]
            if r["st"] != "ok" and not (gone and (not sure(a, s, e) or hit(a, e))):
                out.append(bad)
            continue
        if o["k"] == "create":
            if r["st"] == "ok":
                a = r["v"][0]
                placed[o["uid"]] = (a, e)
                if not maybe(a, s, e):
                    out.append(Violation("placed", f"{d}: {o.get('strat', o['slot'])} placed on {a}"))
                elif isinstance(o["slot"], str) and a in M and M[a][0]:
                    sim.probe("placed on an added process")
                k = (o.get("strat") or {}).get("k")
                if k in ("label", "idle") and labels.get(a) != o["strat"]["label"] and not (
                        vague and a in limbo) or k == "sub" and a == main or \
                        k is None and a != toks.get(o["slot"]) or k == "main" and a != main:
                    out.append(Violation("placed", f"{d}: {o.get('strat', o['slot'])} placed on {a} "
                                         f"(label {labels.get(a)})"))
                continue
            k = (o.get("strat") or {}).get("k")
            pool = [a for a in M if (k in (None,) and a == toks.get(o["slot"])) or k == "random" or
                    k == "sub" and a != main or k in ("label", "idle") and labels.get(a) == o["strat"]["label"]
                    or k == "main" and a == main]
            if "NoIdleSlot" in r.get("mro", ()) and k == "idle":
                continue
            if "IndexError" in r.get("mro", ()) and k in ("label", "sub") and not any(sure(a, s, e) for a in pool):
                continue
            if gone and any(not sure(a, s, e) and maybe(a, s, e) or hit(a, e) for a in pool):
                continue
            if gone and not any(maybe(a, s, e) for a in pool):
                continue
            out.append(bad)
            continue
        if o["k"] in ("calluid", "has", "destroy"):
            q = placed.get(o["uid"])
            if q is None:
                continue
            a = q[0]
            if any(x["k"] == "destroy" and x["uid"] == o["uid"] and x["rid"] < o["rid"] for x in ops):
                continue
            if r["st"] == "ok" and (o["k"] != "has" or r["v"]):
                if M[a][3] < s:
                    out.append(Violation("still there", f"{d} of {o['uid']} on {a}, which was removed, gave "
                                         f"{r.get('v')}", op=o["k"]))
                continue
            via = toks.get(o["slot"])
            if sure(a, s, e) and not hit(a, e) and sure(via, s, e) and not hit(via, e):
                out.append(Violation("failed: " + o["k"], bad.msg + f" {r.get('v')} ({o['uid']} lives on {a})",
                                     op=o["k"]))
            continue
        if o["k"] == "waitrec":
            a = toks.get(o["slot"])
            if r["st"] != "ok":
                if not (gone and not sure(a, s, e)):
                    out.append(bad)
                continue
            if sure(a, s, e) and not any(s < i < e for i in died[a]) and (mode or not died[a]):
                for uid, st, v in r["v"]:
                    if st != "ok":
                        out.append(Violation("waiting", f"{d}: waited for {a}, then using it gave {st} {v}"))
    # processes that ended without reason
    fin = next((r["i"] for r in hist if r["k"] == "fin_stop"), INF)
    for pid, x in exits.items():
        a = addr_of.get(pid)
        if sim.k.procs[pid].parent is None or pid in fkill or x["i"] > min(endi, finish):
            continue
        if a is not None and M[a][2] > x["i"]:
            out.append(Violation("lost", f"process {pid} at {a} ended ({x['cause']}), nobody removed it"))
    # in the end
    if H.kind("final"):
        e = H.kind("final")[0]["i"]
        will = {a for a in M if M[a][2] == INF}
        wont = {a for a in M if M[a][3] < e}
        dead = {a for a in M if died[a] and not mode}
        for r in H.kind("fin_config"):
            a = r["addr"]
            if a == main and r["r"][0] == "ok":
                for x in limbo:
                    alive = [pid for _, pid in procs[x] if (exits.get(pid) or {"i": INF})["i"] > r["i"]]
                    if (x in r["r"][1]) != bool(alive) and not died[x]:
                        out.append(Violation("half added", f"a cancelled addition left {x} with processes {alive}, "
                                             f"the configuration lists {r['r'][1]}"))
                    sim.probe("cancelled addition had an effect")
            if a not in will or a in dead:
                continue
            if r["r"][0] != "ok":
                out.append(Violation("not usable", f"configuration of {a}: {r['r']}"))
                continue
            got = set(r["r"][1])
            if will - got or got & wont or got - set(M):
                out.append(Violation("final config", f"the configuration of {a} lists {sorted(got)}, the members are "
                                     f"{sorted(will)}", crashed=crashed))
        for r in H.kind("fin_use"):
            a = r["addr"]
            if a in will and a not in dead:
                if r["r"] != ["ok", [a, f"last{r['tok']}", a]]:
                    out.append(Violation("not usable", f"{a} in the end: {r['r']} ({len(died[a])} deaths)",
                                         died=bool(died[a])))
                elif died[a] and M[a][0]:
                    sim.probe("added process recovered")
            elif (a in wont or a in dead) and r["r"][0] == "ok":
                out.append(Violation("not removed", f"{a} is still usable in the end"))
        for lb in ("x", "y"):
            got = [r["r"][1][0] for r in H.kind("fin_place") if r["label"] == lb and r["r"][0] == "ok"]
            errs = [r["r"] for r in H.kind("fin_place") if r["label"] == lb and r["r"][0] != "ok"]
            want = {a for a in will if labels.get(a) == lb}
            if dead or vague:
                continue
            if len(set(got)) != len(got) or set(got) - {a for a in M if a not in wont and labels.get(a) == lb} or \
                    want - set(got) or errs and "NoIdleSlot" not in errs[0][1] and M.keys() - will - wont == set():
                out.append(Violation("final placing", f"idle processes labelled {lb}: {sorted(want)}, placed on {got}, "
                                     f"then {errs}"))
        for r in H.kind("fin_find"):
            o = next(x for x in ops if x["rid"] == r["rid"])
            q = placed.get(o["uid"])
            if q is None or any(x["k"] == "destroy" and x["uid"] == o["uid"] for x in ops):
                continue
            a = q[0]
            if a in wont and r["r"][0] == "ok":
                out.append(Violation("still there", f"{o['uid']} lived on {a}, which was removed; in the end: {r['r']}"))
            if a in will and (not died[a] or mode == "actor") and r["r"] != ["ok", [a, o["uid"]]]:
                out.append(Violation("actor lost", f"{o['uid']} lives on {a} ({len(died[a])} deaths): {r['r']}",
                                     died=bool(died[a])))
    # stopping
    ret = next((r for r in H.kind("ret") if r["op"] == "pool_stop" and r["i"] < finish), None)
    if endi < INF:
        if ret is None:
            out.append(Violation("stop", f"stop() never ended", early=bool(plan.get("early"))))
        elif ret["st"] != "ok":
            out.append(Violation("stop", f"stop() failed: {ret['et']} {ret['em']}", early=bool(plan.get("early"))))
        else:
            sim.probe("stopped")
            left = H.kind("left")
            if left and left[0]["pids"]:
                out.append(Violation("left behind", f"processes {left[0]['pids']} are still there after stop()",
                                     early=bool(plan.get("early"))))
    return out


RULE = ("additions and removals bound which addresses must and must not be listed by any member, be chosen by a "
        "placement, be reachable and have a process; an added process is recovered and stopped like the others; a "
        "failed or cancelled addition leaves nothing; calls to other members succeed")
REAL = "append_sub_pool, remove_sub_pool, configuration sync, routing, monitor, recovery; all of xoscar"
ASSUME = ["append_sub_pool and remove_sub_pool are called in the main process, by any number of tasks"]
