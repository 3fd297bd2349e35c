"""P18: killing an actor ends its hosting process and nothing else."""
import asyncio

from ..kernel import SEC
from ..world import Violation
from . import common as C
from .p09 import GONE, deaths_of
from .p07 import INF

RUNS = {"quick": 700, "thorough": 20000}
IMAGES = 24
NEED = {"killed": 200, "killed a hung actor": 30, "killed a stalled process": 10, "refused on main": 20,
        "pending call failed": 30, "killed twice": 10, "restored": 30}
KILL_S = 4.0   # a kill that is able to reach its target takes at most so long
HEALTHY_S = 4.0
FOREVER = 10_000_000


def gen(rng, tier, i):
    n = rng.randint(1, 3)
    mode = rng.choice(["actor", "actor", "process", False])
    plan = {"pools": [{"host": 0, "n": n, "kw": {"auto_recover": mode}}], "actors": [], "callers": []}
    if rng.random() < 0.5:
        plan["pools"].append({"host": rng.choice([0, 1]), "n": rng.randint(0, 2),
                              "kw": {"auto_recover": rng.choice(["actor", False])}})
    for j in range(rng.randint(2, 6)):
        p = 0 if rng.random() < 0.75 else rng.randrange(len(plan["pools"]))
        a = {"pool": p, "slot": rng.randrange(plan["pools"][p]["n"] + 1), "cls": rng.choice(["T", "T", "TS"])}
        if rng.random() < 0.2:
            a["kw"] = {"create_ms": rng.choice([1, 50])}
        plan["actors"].append(a)
    for w in range(rng.randint(2, 4)):
        r = rng.random()
        if r < 0.3:
            p = rng.randrange(len(plan["pools"]))
            c = {"who": w, "at": "actor", "pool": p, "slot": rng.randrange(plan["pools"][p]["n"] + 1)}
        elif r < 0.5:
            c = {"who": w, "at": "main", "pool": rng.randrange(len(plan["pools"]))}
        else:
            c = {"who": w, "at": "client", "host": rng.choice([0, 3])}
        plan["callers"].append(c)
    plan["knobs"] = C.swarm(rng, heavy=False)
    if rng.random() < 0.3:
        plan["knobs"]["spawn_ms"] = rng.choice([[1, 10], [300, 1500]])
    span = rng.choice([20, 300, 2500])
    ops = []
    names = []
    fs = []
    for x in range(rng.choice([0, 0, 1, 2])):
        # a process that does not react at all
        fs.append({"kind": "stop", "target": {"child_of": f"main{rng.randrange(len(plan['pools']))}",
                                              "n": rng.randrange(3)},
                   "for_ms": rng.choice([50, 1500, 8000]), "trigger": {"at_ms": round(rng.random() * span, 2)}})
    if rng.random() < 0.15:
        fs.append({"kind": "kill", "target": {"child_of": "main0", "n": rng.randrange(n)},
                   "trigger": {"at_ms": round(rng.random() * span, 2)}})
    for x in range(rng.randint(0, 3)):
        names.append(f"m{x}")
        fs.append({"kind": "event", "name": f"m{x}", "trigger": {
            "on": rng.choice([{"k": "proc_exit"}, {"k": "spawn"}, {"k": "hook_create"}, {"k": "start"},
                              {"k": "call", "op": "kill"}, {"k": "ret", "op": "kill"}, {"k": "listen"}]),
            "nth": rng.randint(1, 3), "delay_us": rng.choice([0, 50, 1000, 20000, 300000, 550000])}})
        fs.append({"kind": "event", "name": f"m{x}", "trigger": {"at_ms": span + 500}})
    for x in range(rng.randint(4, 16)):
        j = rng.randrange(len(plan["actors"]))
        a = plan["actors"][j]
        r = rng.random()
        if r < 0.35 or x == 0:
            o = {"k": "kill", "uid": f"a{j}", "a": j, "pool": a["pool"],
                 "slot": a["slot"] if rng.random() < 0.4 else "main"}
            if rng.random() < 0.12:
                o["cancel"] = rng.choice([0, 0.5, 5, 100])
        elif r < 0.45 and a["slot"]:
            u = {"uid": f"u{x}", "pool": a["pool"], "slot": a["slot"], "hs": a["slot"]}
            o = {"k": "seq", "ops": [dict(u, k="create"), dict(u, k="kill", slot=rng.choice(["main", a["slot"]]))]}
            if rng.random() < 0.5:
                o["ops"].insert(0, {"k": "waitrec", "pool": a["pool"], "slot": a["slot"], "uids": [], "hs": a["slot"]})
        elif r < 0.6:
            # never returns
            o = {"k": "send", "a": j, "m": rng.choice(["do", "free", "do", "yld"]) if a["slot"] else "free",
                 "ms": FOREVER}
            if o["m"] == "yld":
                o = {"k": "yld", "a": j, "steps": [{"k": "sleep", "ms": FOREVER}]}
            elif a["slot"] and rng.random() < 0.3:
                o["m"] = "busy"
            if not a["slot"]:
                o["ms"] = rng.choice([10, 3000])
            if rng.random() < 0.2 and o.get("m") == "free":
                o["onc"] = "swallow"
        else:
            o = {"k": "send", "a": j, "m": rng.choice(["do", "free", "sdo", "free"]),
                 "ms": rng.choice([0, 0, 1, 50, 1000])}
            if o["m"] == "do":
                o["ms"] = min(o["ms"], 50)
        o["c"] = rng.randrange(len(plan["callers"]))
        if names and rng.random() < 0.4:
            o["on"] = rng.choice(names)
            o["at"] = round(rng.random() * rng.choice([1, 30, 300]), 2)
        else:
            o["at"] = round(rng.random() * span, 2)
        ops.append(o)
    if rng.random() < 0.15:
        ops.append({"k": "kill", "uid": "nobody", "pool": 0, "slot": rng.choice(["main"] + list(range(n + 1))),
                    "c": rng.randrange(len(plan["callers"])), "at": round(rng.random() * span, 2)})
    # whatever hangs is killed in the end, by a caller that nobody kills
    reaper = len(plan["callers"])
    plan["callers"].append({"who": reaper, "at": "client", "host": 3})
    for j, a in enumerate(plan["actors"]):
        if a["slot"] and any(o.get("a") == j and (o.get("ms", 0) == FOREVER or o["k"] == "yld") for o in ops):
            ops.append({"k": "kill", "uid": f"a{j}", "a": j, "pool": a["pool"], "slot": "main",
                        "c": reaper, "at": span + 10_000 + j * 3000, "last": True})
    C.mainrefs(rng, [o for o in ops if o["k"] == "send"])
    C.number(ops)
    plan["ops"] = ops
    plan["faults"] = fs
    plan["faults_until_ms"] = span + 2000
    plan["quiet"] = True
    plan["deadline"] = 60
    plan["settle"] = 8.0
    plan["after"] = "p18"
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


async def after(ctx, sim, plan):
    """What is there in the end?"""
    xo = ctx.xo

    async def ask(kind, co, **kw):
        try:
            r = ["ok", await asyncio.wait_for(co, 20)]
        except Exception as e:
            r = ["err", [c.__name__ for c in type(e).__mro__], f"{type(e).__name__} {e}"[:200]]
        ctx.rec(kind, r=r, **kw)

    async def use(a, uid):
        r = await xo.create_actor(ctx.A.T, uid, uid=uid, address=a)
        return (await r.do(-1))[1]

    async def call(a, uid):
        r = await xo.actor_ref(address=a, uid=uid)
        return (await r.free(-1))[1]

    for i, p in sorted(sim.pools.items()):
        for s, a in enumerate(p["addrs"]):
            await ask("fin_addr", use(a, f"last{i}.{s}"), addr=a)
    for j, a in enumerate(plan["actors"]):
        p = sim.pools[a["pool"]]
        await ask("fin_actor", call(p["addr"], f"a{j}"), a=j)


C.AFTER["p18"] = after


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    finish = H.kind("finish")[0]["i"] if H.kind("finish") else INF
    pools = {r["pool"]: r for r in H.kind("pool_up")}
    home = {j: pools[a["pool"]]["subs"][a["slot"] % len(pools[a["pool"]]["subs"])]
            for j, a in enumerate(plan["actors"])}
    mains = {r["subs"][0]: i for i, r in pools.items()}
    modes = {a: plan["pools"][i].get("kw", {}).get("auto_recover", "actor") for i, r in pools.items() for a in r["subs"]}
    subs = [a for r in pools.values() for a in r["subs"][1:]]
    exits = {r["pid"]: r for r in H.kind("proc_exit") if r["i"] < finish}
    procs = deaths_of(sim, hist, subs)
    addr_of = {pid: a for a, ps in procs.items() for _, pid in ps}
    fkill = {r["pid"]: r for r in H.kind("fault") if r["kind"] == "kill"}
    stops = [r for r in H.kind("fault") if r["kind"] == "stop"]
    conts = {}
    for r in H.kind("fault"):
        if r["kind"] == "cont":
            conts.setdefault(r["pid"], []).append(r)
    stalled = [(r["pid"], r["t"], next((c["t"] for c in conts.get(r["pid"], ()) if c["t"] > r["t"]), INF))
               for r in stops]
    ops = C.leaf_ops(plan["ops"])
    kills = {}

    def home_of(o):
        if o.get("hs") is not None:
            ss = pools[o["pool"]]["subs"]
            return ss[o["hs"] % len(ss)]
        return home[o["a"]] if o.get("a") is not None else None
    for o in ops:
        if o["k"] == "kill" and o["rid"] in H.calls and home_of(o) is not None:
            kills.setdefault(home_of(o), []).append(H.calls[o["rid"]]["i"])
    # 1. which processes died
    for pid, x in exits.items():
        p = sim.k.procs[pid]
        if x["cause"] == "exit" and p.parent is None:
            continue
        if pid in fkill:
            continue
        a = addr_of.get(pid)
        if a is None:
            out.append(Violation("bystander died", f"process {pid} ({p.role}) of no killed actor ended ({x['cause']})"))
            continue
        n = sum(1 for q, y in exits.items() if addr_of.get(q) == a and q not in fkill and y["i"] <= x["i"])
        if n > sum(1 for i in kills.get(a, ()) if i < x["i"]):
            out.append(Violation("bystander died", f"process {pid} at {a} ended ({x['cause']}); it is exit number {n} "
                                 f"there with {len(kills.get(a, ()))} kills of its actors", cause=x["cause"]))
    died = {a: [i for i, _ in procs[a] if i is not None and i < finish] for a in subs}
    # 2. operations
    for o in ops:
        cl, r = H.calls.get(o["rid"]), H.rets.get(o["rid"])
        if cl is None:
            continue
        d = f"{o['k']} {o['rid']} of {o.get('uid') or 'a%s' % o.get('a')}"
        a = home_of(o)
        sub = a in died
        if r is None:
            if cl["pid"] in exits:
                continue
            out.append(Violation("hang", f"{d} never ended", op=o["k"], forever=o.get("ms") == FOREVER))
            continue
        cancelled = r["st"] == "cancelled" and o["rid"] in H.cancels
        dur = (r["t"] - cl["t"]) / SEC
        hit = sub and any(i < r["i"] for i in died[a])
        # can the call be late because of a process that does not react?
        slow = any(s < r["t"] and e > cl["t"] for pid, s, e in stalled)
        if o["k"] == "kill":
            if cancelled:
                continue
            if o["uid"] == "nobody":
                if "ActorNotExist" not in (r.get("mro") or ()) and not any(x in r.get("mro", ()) for x in GONE):
                    out.append(Violation("odd kill", f"{d} gave {r['st']} {r.get('et')} {r.get('em')}"))
                continue
            busy = any(q["k"] == "start" and q["m"] == "busy" and addr_of.get(q["pid"]) == a and q["i"] < r["i"]
                       for q in hist)
            limit = not slow or o["slot"] == "main" and not any(
                pid == cl["pid"] or sim.k.procs[pid].parent is None for pid, s, e in stalled)
            if o["slot"] != "main" and busy:
                limit = False
            if limit and dur > KILL_S:
                out.append(Violation("slow kill", f"{d} took {dur:.1f} s (via {o['slot']})", via=o["slot"] == "main"))
            if not sub:
                if "ValueError" not in (r.get("mro") or ()):
                    out.append(Violation("main killed", f"{d}, which lives in a main process, gave {r['st']} "
                                         f"{r.get('et')} {r.get('em')}"))
                else:
                    sim.probe("refused on main")
                continue
            if r["st"] == "ok":
                # processes that had the actor when kill was called must have ended
                alive = [pid for i, pid in procs[a]
                         if (i is None or i > r["i"]) and any(
                             u["k"] == "actor_up" and u["uid"] == o["uid"] and u["pid"] == pid and u["i"] < cl["i"]
                             for u in hist)]
                if alive:
                    out.append(Violation("not killed", f"{d} succeeded, but its process {alive} lives on"))
                sim.probe("killed")
                if len(kills[a]) > 1:
                    sim.probe("killed twice")
                for i, pid in procs[a]:
                    if i is not None and cl["i"] < i < r["i"]:
                        if any(q["k"] == "start" and addr_of.get(q["pid"]) == a and q["i"] < cl["i"] and
                               not any(w["i"] < i for w in H.ends.get(q["rid"], ())) for q in hist):
                            sim.probe("killed a hung actor")
                        if any(q == pid and s < cl["t"] < e and e > r["t"] for q, s, e in stalled):
                            sim.probe("killed a stalled process")
            elif any(x in r["mro"] for x in GONE):
                if "ActorNotExist" in r["mro"] and o.get("hs") is not None and not any(
                        u["k"] == "actor_up" and u["uid"] == o["uid"] and u["i"] < cl["i"] for u in hist):
                    continue
                if not any(i < r["i"] for i in died[a]):
                    out.append(Violation("odd kill", f"{d} gave {r['et']} {r['em']}, though {a} never died"))
            else:
                out.append(Violation("odd kill", f"{d} gave {r['st']} {r['et']} {r['em']}", et=r["et"]))
            continue
        # calls
        if o["k"] == "waitrec":
            if r["st"] != "ok":
                out.append(Violation("odd error", f"{d} gave {r['st']} {r.get('et')} {r.get('em')}", et=r.get("et")))
            continue
        if r["st"] == "ok":
            if isinstance(r["v"], dict):
                out.append(Violation("bad value", f"{d}: {r['v']['bad']}"))
            if not hit and not slow and o["k"] == "send" and o["m"] == "free" and dur > HEALTHY_S + o.get("ms", 0) / 1000 \
                    and not busy_at(hist, addr_of, a, cl, r):
                out.append(Violation("bystander slow", f"{d} took {dur:.1f} s, though {a} never died"))
        elif r["st"] == "err" and any(x in r["mro"] for x in GONE):
            if not hit:
                out.append(Violation("bystander failed", f"{d} gave {r['et']} {r['em']}, though {a} never died"))
            elif H.starts.get(o["rid"]):
                sim.probe("pending call failed")
        else:
            out.append(Violation("odd error", f"{d} gave {r['st']} {r.get('et')} {r.get('em')}", et=r.get("et")))
    # 3. afterwards
    for r in H.kind("fin_addr"):
        a = r["addr"]
        dead = a in died and died[a] and not modes[a]
        if dead and r["r"][0] == "ok":
            out.append(Violation("resurrected", f"{a} is served although recovery is off"))
        if not dead and r["r"][0] != "ok":
            out.append(Violation("not usable", f"{a} in the end: {r['r']} ({len(died.get(a, ()))} deaths, "
                                 f"auto_recover={modes[a]})", died=bool(died.get(a))))
    for r in H.kind("fin_actor"):
        a = home[r["a"]]
        n = len(died.get(a, ()))
        uid = f"a{r['a']}"
        if n == 0 or modes[a] in ("actor", True):
            if r["r"] != ["ok", uid]:
                out.append(Violation("actor lost", f"{uid} in the end: {r['r']} ({n} deaths, auto_recover={modes[a]})",
                                     died=n > 0))
            elif n:
                sim.probe("restored")
        elif r["r"][0] == "ok":
            out.append(Violation("resurrected", f"{uid} is there after {n} deaths (auto_recover={modes[a]})"))
    return out


def busy_at(hist, addr_of, a, cl, r):
    return any(q["k"] == "start" and q["m"] == "busy" and addr_of.get(q["pid"]) == a and q["i"] < r["i"] for q in hist)


RULE = ("every end of a pool's process is accounted for by a kill of one of its actors or by an injected crash; after a "
        "successful kill the process that hosted the actor is gone, within a bound; kills of actors of a main process "
        "are refused; calls elsewhere succeed in time, pending ones end; afterwards the recovery policy holds")
REAL = "kill_actor, control messages, process termination and recovery; all of xoscar"
ASSUME = ["a kill addressed to the process itself may take as long as that process does not react"]
