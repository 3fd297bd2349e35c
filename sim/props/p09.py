"""P09: a crashed worker process is replaced and its actors are restored as configured."""
import asyncio

from ..world import Violation
from . import common as C
from .p07 import INF, Op, alternates

RUNS = {"quick": 700, "thorough": 20000}
IMAGES = 24
NEED = {"recovered": 50, "actor restored": 20, "stayed down": 5, "died again while being recovered": 3,
        "used right after waiting": 5, "change during recovery": 3, "failed restart": 3}
GONE = ("ServerClosed", "ConnectionError", "OSError", "ActorNotExist", "EOFError")


def gen(rng, tier, i):
    n = rng.randint(1, 3)
    mode = rng.choice(["actor", "actor", "actor", "process", "process", False, True])
    plan = {"pools": [{"host": 0, "n": n, "kw": {"auto_recover": mode}, "hooks": True}], "actors": [],
            "callers": []}
    if rng.random() < 0.2:
        plan["pools"].append({"host": rng.choice([0, 1]), "n": 1})
    if rng.random() < 0.25:
        plan["pools"][0]["hook_err"] = rng.choice(["down", "recover", "both"])
    for j in range(rng.randint(1, 4)):
        a = {"pool": 0, "slot": rng.randrange(n + 1), "args": ["static", j]}
        if rng.random() < 0.4:
            a["kw"] = {"create_ms": rng.choice([1, 20, 200])}
        plan["actors"].append(a)
    for w in range(rng.randint(2, 4)):
        r = rng.random()
        if r < 0.2:
            c = {"who": w, "at": "actor", "pool": 0, "slot": rng.randrange(n + 1)}
        elif r < 0.35 and len(plan["pools"]) > 1:
            c = {"who": w, "at": "actor", "pool": 1, "slot": rng.randrange(2)}
        elif r < 0.6:
            c = {"who": w, "at": "main", "pool": 0}
        else:
            c = {"who": w, "at": "client", "host": rng.choice([0, 3])}
        plan["callers"].append(c)
    plan["knobs"] = C.swarm(rng, heavy=False)
    if rng.random() < 0.3:
        plan["knobs"]["spawn_ms"] = rng.choice([[1, 10], [300, 1500]])
    dyn = [{"uid": f"u{x}", "home": rng.randrange(1, n + 1)} for x in range(rng.randint(1, 3))]
    plan["uids"] = dyn + [{"uid": f"a{j}", "home": a["slot"], "static": j} for j, a in enumerate(plan["actors"])]
    span = rng.choice([600, 2500, 5000])
    plan["faults"] = []
    names = []
    for x in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.45 or x == 0:
            trg = {"at_ms": round(rng.random() * span, 2)}
        else:
            trg = {"on": rng.choice([{"k": "spawn"}, {"k": "on_down"}, {"k": "on_recover"}, {"k": "hook_create"},
                                     {"k": "proc_exit"}, {"k": "ret", "op": "create"}, {"k": "start"},
                                     {"k": "hook_destroy"}]),
                   "nth": rng.randint(1, 2), "delay_us": rng.choice([0, 100, 3000, 30000, 200000, 500000])}
        kd = "stop" if rng.random() < 0.08 else "kill"
        f = {"kind": kd, "target": {"child_of": "main0", "n": rng.randrange(n)}, "trigger": trg}
        if kd == "stop":
            f["for_ms"] = rng.choice([5, 300, 1500])
        plan["faults"].append(f)
    if rng.random() < 0.25:
        plan["faults"].append({"kind": "knob", "name": rng.choice(["spawn_die_p", "spawn_fail_p"]),
                               "v": rng.choice([0.4, 1.0]), "for_ms": rng.choice([1000, 4000]),
                               "trigger": {"at_ms": round(rng.random() * span, 2)}})
    for x in range(rng.randint(0, 3)):  # moments that ops wait for
        nm = f"m{x}"
        names.append(nm)
        plan["faults"].append({"kind": "event", "name": nm, "trigger": {
            "on": rng.choice([{"k": "on_down"}, {"k": "proc_exit"}, {"k": "spawn"}, {"k": "hook_create"},
                              {"k": "on_recover"}]),
            "nth": 1, "delay_us": rng.choice([0, 1000, 20000, 300000, 600000])}})
        plan["faults"].append({"kind": "event", "name": nm, "trigger": {"at_ms": span + 1000}})
    ops = []
    for x in range(rng.randint(5, 18)):
        o = gen_op(rng, plan, n, x)
        o["c"] = rng.randrange(len(plan["callers"]))
        if names and rng.random() < 0.5:
            o["on"] = rng.choice(names)
            o["at"] = round(rng.random() * rng.choice([1, 30, 300]), 2)
        else:
            o["at"] = round(rng.random() * span * 1.3, 2)
        ops.append(o)
    C.number(ops)
    plan["ops"] = ops
    plan["faults_until_ms"] = span + 1500
    plan["quiet"] = True
    plan["deadline"] = 60
    plan["settle"] = 8.0
    plan["after"] = "p09"
    return plan


def gen_op(rng, plan, n, x):
    u = rng.choice([u for u in plan["uids"] if u["home"]] if rng.random() < 0.8 or True else plan["uids"]) \
        if any(u["home"] for u in plan["uids"]) else plan["uids"][0]
    r = rng.random()
    o = {"uid": u["uid"], "pool": 0, "slot": u["home"] if rng.random() < 0.5 else "main"}
    if r < 0.3:
        j = rng.randrange(len(plan["actors"]))
        return {"k": "send", "a": j, "uid": f"a{j}", "m": rng.choice(["do", "do", "free", "sdo"]),
                "ms": rng.choice([0, 1, 50, 400])}
    if r < 0.5:
        o["k"] = "create"
        if rng.random() < 0.5:
            o["kw"] = {"create_ms": rng.choice([1, 10, 100, 300])}
        if o["slot"] == "main":
            o["strat"] = {"k": "index", "i": u["home"]}
    elif r < 0.65:
        o["k"] = "destroy"
    elif r < 0.75:
        o["k"] = "calluid"
        o["ms"] = rng.choice([0, 0, 1, 5])
    elif r < 0.93:
        s = rng.randrange(1, n + 1)
        o = {"k": "waitrec", "pool": 0, "slot": s, "uids": [u["uid"] for u in plan["uids"] if u["home"] == s]}
        if rng.random() < 0.6:
            o["new"] = f"n{x}"
    else:
        o["k"] = "kill"
        o["slot"] = u["home"]
    return o


def setup(sim, plan):
    C.setup_calls(sim, plan)


def simplify(plan):
    """Smaller plans for the shrinker."""
    if plan["pools"][0].get("hook_err"):
        p = dict(plan, pools=[{k: v for k, v in plan["pools"][0].items() if k != "hook_err"}] + plan["pools"][1:])
        yield p


async def after(ctx, sim, plan):
    xo, A = ctx.xo, ctx.A
    p = sim.pools[0]
    addrs = p["addrs"]

    async def ask(kind, what, co, **kw):
        try:
            v = await asyncio.wait_for(co, 20)
            r = ["ok", v]
        except Exception as e:
            r = ["err", [c.__name__ for c in type(e).__mro__], f"{type(e).__name__} {e}"[:200]]
        ctx.rec(kind, what=what, r=r, **kw)
        return r

    for s, a in enumerate(addrs):
        uid = f"last{s}"

        async def use():
            r = await xo.create_actor(A.T, uid, uid=uid, address=a)
            v = await r.do(-1)
            await xo.destroy_actor(r)
            return [r.address, v[1]]
        await ask("fin_addr", "use", use(), addr=a, slot=s)
    for u in plan["uids"]:
        uid, home = u["uid"], addrs[u["home"] % len(addrs)]
        await ask("final", "has via main", xo.has_actor(xo.create_actor_ref(p["addr"], uid.encode())), uid=uid)
        await ask("final", "has via home", xo.has_actor(xo.create_actor_ref(home, uid.encode())), uid=uid)

        async def find(a):
            r = await xo.actor_ref(address=a, uid=uid)
            return r.address == home

        async def call(a):
            r = await xo.actor_ref(address=a, uid=uid)
            return (await r.do(-1))[1:3]
        await ask("final", "find via main", find(p["addr"]), uid=uid)
        await ask("final", "call via main", call(p["addr"]), uid=uid)
        await ask("final", "call via home", call(home), uid=uid)


C.AFTER["p09"] = after


def deaths_of(sim, hist, addrs):
    """Address -> [(index of the exit record or None, pid)] of the processes that served it, oldest first."""
    fin = next((r["i"] for r in hist if r["k"] == "callers_done"), INF)
    ex = {r["pid"]: r["i"] for r in hist if r["k"] == "proc_exit"}
    out = {a: [] for a in addrs}
    for p in sorted(sim.k.procs.values(), key=lambda p: p.born):
        for a in dict.fromkeys(p.listened):
            if a in out:
                out[a].append((ex.get(p.pid), p.pid))
    return out


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    mode = plan["pools"][0]["kw"]["auto_recover"]
    mode = "actor" if mode is True else mode
    up = next(r for r in H.kind("pool_up") if r["pool"] == 0)
    addrs = up["subs"]
    finish = H.kind("finish")[0]["i"] if H.kind("finish") else INF
    procs = deaths_of(sim, hist, addrs[1:])
    deaths = {a: [(i, pid) for i, pid in ps if i is not None and i < finish] for a, ps in procs.items()}
    served = {pid for ps in procs.values() for _, pid in ps}
    failed = [r for r in H.kind("spawn") if r["parent"] == up["pid"] and r["pid"] not in served]
    nfail = len(failed) + sim.k.counters.get("fork failure", 0)
    ups = {a: [r["i"] for r in H.kind("on_recover") if r["addr"] == a] for a in addrs}
    dns = {a: [r["i"] for r in H.kind("on_down") if r["addr"] == a] for a in addrs}
    exits = {r["pid"]: r["i"] for r in H.kind("proc_exit")}
    for a in addrs[1:]:
        d = deaths[a]
        n = len(d)
        sure = 0
        last = up["i"]
        for i, pid in d:
            est = [x for x in ups[a] + [up["i"]] if x < i and x >= last]
            if est:
                sure += 1
            elif n > 1:
                sim.probe("died again while being recovered")
            last = i
        if nfail:
            sim.probe("failed restart")
        if not sure <= len(dns[a]) <= n + nfail:
            out.append(Violation("down callback", f"{a}: {n} processes died ({sure} of them in service, {nfail} "
                                 f"restarts failed), the down callback ran {len(dns[a])} times (auto_recover={mode})",
                                 more=len(dns[a]) > n + nfail))
        if not mode:
            if len(procs[a]) > 1 or failed:
                out.append(Violation("resurrected", f"{a}: restarted although recovery is off"))
            if ups[a]:
                out.append(Violation("recover callback", f"{a}: the recover callback ran with recovery off"))
            if n:
                sim.probe("stayed down")
        else:
            if n:
                sim.probe("recovered")
                if len(procs[a]) <= n:
                    out.append(Violation("not replaced", f"{a}: in the end no process serves it, {n} died"))
            if not sure <= len(ups[a]) <= n or n and (not ups[a] or ups[a][-1] < d[-1][0]):
                out.append(Violation("recover callback", f"{a}: {n} processes died ({sure} in service), the recover "
                                     f"callback ran {len(ups[a])} times", more=len(ups[a]) > n))
            seq = sorted([(i, 0) for i in dns[a]] + [(i, 1) for i in ups[a]])
            if any(x[1] and y[1] for x, y in zip(seq, seq[1:])) or seq and seq[0][1]:
                out.append(Violation("recover callback", f"{a}: callbacks ran in the order {seq}"))
    for r in H.kind("fin_addr"):
        dead = not mode and deaths.get(r["addr"])
        if dead and r["r"][0] == "ok":
            out.append(Violation("resurrected", f"{r['addr']} is served although its process died and recovery is "
                                 "off"))
        if not dead and r["r"] != ["ok", [r["addr"], f"last{r['slot']}"]]:
            out.append(Violation("not usable", f"{r['addr']} in the end: {r['r']}"))
    # operations
    by = {}
    ops = C.leaf_ops(plan["ops"])
    for o in ops:
        cl, r = H.calls.get(o["rid"]), H.rets.get(o["rid"])
        if cl is None:
            continue
        d = f"{o['k']} {o['rid']} of {o.get('uid')}"
        if r is None or r["i"] > finish:
            if cl["pid"] not in exits or exits[cl["pid"]] > finish:
                out.append(Violation("hang", f"{d} never ended", op=o["k"]))
            elif o["k"] in ("create", "destroy"):
                by.setdefault(o["uid"], []).append(Op(o, cl["i"], INF, "maybe", None))
            continue
        st = r["st"]
        if st == "cancelled":
            out.append(Violation("odd error", f"{d} was cancelled by nobody", op=o["k"]))
            continue
        if o["k"] == "waitrec":
            continue
        home = addrs[next(u["home"] for u in plan["uids"] if u["uid"] == o["uid"]) % len(addrs)]
        hit = bool(deaths.get(home))
        if st == "ok":
            s = "ok"
        elif "ActorAlreadyExist" in r["mro"]:
            s = "exists"
        elif "ActorNotExist" in r["mro"]:
            s = "maybe" if o["k"] == "create" else "absent"
            if o["k"] == "create" and not any(x["k"] == "destroy" and x["uid"] == o["uid"] for x in ops) and not hit:
                out.append(Violation("odd error", f"{d} failed with {r['et']} {r['em']}", op=o["k"], et=r["et"]))
        elif o["k"] == "kill" and home == addrs[0] and "ValueError" in r["mro"]:
            s = "refused"
        elif any(x in r["mro"] for x in GONE):
            s = "maybe"
            if not hit:
                out.append(Violation("bystander", f"{d} failed with {r['et']} {r['em']}, though {home} never died",
                                     op=o["k"]))
        else:
            out.append(Violation("odd error", f"{d} failed with {r['et']} {r['em']}", op=o["k"], et=r["et"]))
            continue
        if not hit and o["k"] in ("send", "calluid") and r["t"] - cl["t"] > (10_000 + o.get("ms", 0)) * 1_000_000:
            out.append(Violation("bystander", f"{d} took {(r['t'] - cl['t']) / 1e9:.1f} s, though {home} never died",
                                 op=o["k"]))
        if o["k"] == "send" and s == "absent" and not hit and not any(
                x["k"] == "destroy" and x["uid"] == o["uid"] for x in ops):
            out.append(Violation("bystander", f"{d} says there is no such actor", op=o["k"]))
        by.setdefault(o["uid"], []).append(Op(o, cl["i"], r["i"] if s != "maybe" or not mode == "actor" else INF, s, r))
    insts = {r["inst"]: r for r in H.kind("hook_create")}
    fins = {}
    for r in H.kind("final"):
        fins.setdefault(r["uid"], {})[r["what"]] = r["r"]
    for u in plan["uids"]:
        home = addrs[u["home"] % len(addrs)]
        xs = by.get(u["uid"], [])
        if "static" in u:
            o = {"rid": "static", "args": ["static", u["static"]]}
            xs = [Op(dict(o, k="create"), 0, 0, "ok", None)] + xs
        u["_ops"] = xs
        if fins.get(u["uid"]) and not out:
            out += check_final(sim, u, xs, home, mode, deaths.get(home, []), ups.get(home, []), dns.get(home, []),
                               fins[u["uid"]], insts)
    ops_of = {u["uid"]: u.pop("_ops") for u in plan["uids"]}
    # waiting for recovery
    rec = {r["rid"]: r["i"] for r in H.kind("recovered")}
    for o in ops:
        if o["k"] != "waitrec" or o["rid"] not in H.rets or not mode or \
                H.rets[o["rid"]]["i"] > finish:
            continue
        cl, r = H.calls[o["rid"]], H.rets[o["rid"]]
        a = addrs[o["slot"] % len(addrs)]
        ds = deaths.get(a, [])
        if r["st"] != "ok":
            out.append(Violation("waiting", f"waiting for {a} failed: {r['et']} {r['em']}"))
            continue
        if any(cl["i"] < i < r["i"] for i, _ in ds):
            continue
        before = [i for i, _ in ds if i < cl["i"]]
        for uid, st, v in r["v"]:
            if uid == o.get("new"):
                need = True
            else:
                need = sure_at(ops_of[uid], cl["i"], r["i"], mode, before)
            if not need:
                continue
            if before and any(x > before[-1] for x in ups[a]) is False or before:
                sim.probe("used right after waiting")
            if st != "ok" or v != uid:
                out.append(Violation("waiting", f"waited for the recovery of {a} (its process had died "
                                     f"{len(before)} times before), then using {uid} gave {st} {v}",
                                     died=bool(before), new=uid == o.get("new")))
    return out


def sure_at(xs, s, e, mode, before):
    """Must the actor exist all along [s, e]?"""
    for c in xs:
        if c.k != "create" or c.st != "ok" or c.e > s:
            continue
        if mode != "actor" and any(i > c.s for i in before):
            continue
        if not any(d.k == "destroy" and d.st in ("ok", "maybe") and d.e > c.s and d.s < e for d in xs):
            return True
    return False


def check_final(sim, u, xs, home, mode, ds, ups, dns, fin, insts):
    uid = u["uid"]
    out = []
    muts = [x for x in xs if x.k in ("create", "destroy") and x.st in ("ok", "maybe")]
    if any(d[0] < x.s < y for d, y in zip(ds, ups) for x in muts):
        sim.probe("change during recovery")
    down = not mode and ds
    pos, neg, odd = [], [], []
    for k, r in fin.items():
        if "home" in k and down:
            if r[0] == "ok":
                out.append(Violation("resurrected", f"{uid} at {home}: {k} gives {r}"))
        elif r[0] == "ok":
            (pos if r[1] else neg).append(k)
        elif "ActorNotExist" in r[1]:
            neg.append(k)
        else:
            odd.append(k)
    if odd:
        out.append(Violation("final odd", f"{uid} in the end: {odd[0]} gives {fin[odd[0]]} (auto_recover={mode}, "
                             f"{len(ds)} deaths)"))
    elif pos and neg:
        out.append(Violation("final split", f"{uid} in the end: {pos} find it, {neg} do not (auto_recover={mode}, "
                             f"{len(ds)} deaths, {muts})"))
    if out:
        return out
    there = bool(pos)
    if mode == "actor" and ds:
        # while its process is replaced an actor is away, and another one may be created in its place
        if not there and sure_at(xs, INF - 1, INF - 1, mode, ()):
            out.append(Violation("actor lost", f"{uid} at {home} is gone after {len(ds)} deaths (auto_recover={mode}), "
                                 f"changes: {muts}"))
        elif there and all(any(d.k == "destroy" and d.st == "ok" and d.s > c.e for d in muts)
                           for c in muts if c.k == "create"):
            out.append(Violation("actor back", f"{uid} at {home} is there after {len(ds)} deaths, changes: {muts}"))
    elif not ds:
        ok = alternates(muts)
        if there not in ok:
            out.append(Violation("actor lost" if not there else "actor back", f"{uid} at {home} is "
                                 f"{'there' if there else 'gone'} after {len(ds)} deaths (auto_recover={mode}); no "
                                 f"order of {muts} explains that", order=not ok))
    else:
        last = ds[-1][0]
        if there and all(x.e < last for x in muts if x.k == "create"):
            out.append(Violation("actor back", f"{uid} at {home} is there after its process died (auto_recover={mode})"))
        rec = next((i for i in ups if i > last), None)
        if not there and mode and rec is not None and any(
                c.k == "create" and c.st == "ok" and c.s > rec and
                not any(x.k == "destroy" and x.e > c.s for x in muts) for c in muts):
            out.append(Violation("actor lost", f"{uid} at {home}, created after the recovery, is gone"))
    if there and not out:
        if ds:
            sim.probe("actor restored")
        for k in ("call via main", "call via home"):
            if k not in fin or fin[k][0] != "ok":
                continue
            tag, inst = fin[k][1]
            a = insts[inst]["args"]
            src = [c for c in muts if c.k == "create" and (a == c.o["args"] if c.o["rid"] == "static"
                                                           else a == [c.o["rid"]])]
            if tag != uid or not src:
                out.append(Violation("wrong actor", f"{uid} in the end: {tag} created with {a}"))
            elif src[0].st == "ok" and any(d.k == "destroy" and d.st == "ok" and d.s > src[0].e for d in muts):
                out.append(Violation("actor back", f"{uid}, destroyed, is back with the arguments {a}"))
    return out


RULE = ("with recovery on every address is served again in the end, restored actors are exactly those that some order "
        "of the successful (and uncertain) creations and destructions leaves, with their arguments; nothing is left in "
        "process mode and the process stays down with recovery off; callbacks per death; after waiting, sure actors "
        "answer")
REAL = "pool monitor, recovery, sub process start-up and registry; all of xoscar"
ASSUME = ["the machine can start processes again once the injected start-up failures end"]
