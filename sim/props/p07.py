"""P07: the registry of actors behaves as one map from uid to live actor."""
import asyncio

from ..world import Violation
from . import common as C

RUNS = {"quick": 900, "thorough": 25000}
IMAGES = 16
NEED = {"created": 20, "already exists": 5, "destroyed": 10, "not there": 5, "creation hook failed": 1,
        "destruction hook failed": 1, "overlapping changes": 10}
INF = 1 << 60


def gen(rng, tier, i):
    n = rng.randint(1, 3)
    plan = {"pools": [{"host": 0, "n": n}], "actors": [], "callers": []}
    for w in range(rng.randint(2, 4)):
        r = rng.random()
        if r < 0.5:
            c = {"who": w, "at": "actor", "pool": 0, "slot": rng.randrange(n + 1)}
        elif r < 0.7:
            c = {"who": w, "at": "main", "pool": 0}
        else:
            c = {"who": w, "at": "client", "host": rng.choice([0, 3])}
        plan["callers"].append(c)
    plan["knobs"] = C.swarm(rng, heavy=False)
    uids = [{"uid": f"u{x}", "home": rng.randrange(n + 1)} for x in range(rng.randint(1, 3))]
    plan["uids"] = uids
    slow = rng.random() < 0.7
    errs = rng.random() < 0.6
    cancels = rng.random() < 0.3
    ops = []
    for _ in range(rng.randint(6, 22)):
        u = rng.choice(uids)
        ops.append(gen_op(rng, u, n, slow, errs, cancels))
        ops[-1]["c"] = rng.randrange(len(plan["callers"]))
        ops[-1]["at"] = round(rng.random() * rng.choice([3, 30, 120]), 2)
    if rng.random() < 0.5:  # some of it in sequence
        seqs = {}
        for o in ops:
            seqs.setdefault(o["c"] if rng.random() < 0.6 else None, []).append(o)
        free = seqs.pop(None, [])
        for c, s in seqs.items():
            for o in s:
                o.pop("at", None)
                if rng.random() < 0.4:
                    o["at"] = rng.choice([0.5, 2, 10])
            free.append({"k": "seq", "ops": s, "c": c})
        ops = free
    C.number(ops)
    plan["ops"] = ops
    plan["deadline"] = 40
    plan["settle"] = 3.0
    plan["after"] = "p07"
    return plan


def gen_op(rng, u, n, slow, errs, cancels):
    uid, home = u["uid"], u["home"]
    r = rng.random()
    slot = home if rng.random() < 0.5 else "main"
    o = {"uid": uid, "pool": 0, "slot": slot}
    if r < 0.36:
        o["k"] = "create"
        kw = {}
        if slow and rng.random() < 0.5:
            kw["create_ms"] = rng.choice([1, 10, 40])
        if slow and rng.random() < 0.4:
            kw["destroy_ms"] = rng.choice([1, 10, 40])
        if errs and rng.random() < 0.3:
            kw[rng.choice(["init_err", "create_err", "create_err", "destroy_err"])] = rng.choice(
                ["app", "value", "key", "kw"])
        if rng.random() < 0.3:
            kw["cycle"] = 1
        if kw:
            o["kw"] = kw
        if slot == "main":
            o["strat"] = {"k": "index", "i": home}
    elif r < 0.60:
        o["k"] = "destroy"
        if rng.random() < 0.3:
            o["byref"] = True
        elif rng.random() < 0.3:
            o["held"] = True
    elif r < 0.76:
        o["k"] = "has"
        if rng.random() < 0.3:
            o["byref"] = True
        elif rng.random() < 0.3:
            o["held"] = True
    elif r < 0.86:
        o["k"] = "ref"
        if rng.random() < 0.5:
            o["slot"] = rng.randrange(n + 1)
    else:
        o["k"] = "calluid"
        o["ms"] = rng.choice([0, 0, 1, 5])
        if rng.random() < 0.5:
            o[rng.choice(["held", "held", "keep"])] = True
        if rng.random() < 0.5:
            o["slot"] = rng.randrange(n + 1)
    if cancels and o["k"] in ("create", "destroy") and rng.random() < 0.4:
        o["cancel"] = rng.choice([0, 0.3, 1, 3, 10, 30])
    return o


def setup(sim, plan):
    C.setup_calls(sim, plan)


async def after(ctx, sim, plan):
    """Once everything is quiet: every way to ask has to agree, and every uid has to be usable."""
    xo, A = ctx.xo, ctx.A
    p = sim.pools[0]
    addrs = p["addrs"]
    for j, u in enumerate(plan["uids"]):
        uid, home = u["uid"], addrs[u["home"] % len(addrs)]

        async def ask(what, co):
            try:
                v = await asyncio.wait_for(co, 30)
                r = ["ok", v]
            except Exception as e:
                r = ["err", [c.__name__ for c in type(e).__mro__], f"{type(e).__name__} {e}"[:200]]
            ctx.rec("final", uid=uid, what=what, r=r)
            return r

        async def find(a):
            return (await xo.actor_ref(address=a, uid=uid)).address == home

        async def call(a):
            r = await xo.actor_ref(address=a, uid=uid)
            return (await r.do(-1))[1] == uid

        async def create(a, **kw):
            r = await xo.create_actor(A.T, uid, -1000 - j, uid=uid, address=a, **kw)
            return r.address == home

        async def state(tag):
            for a in dict.fromkeys([p["addr"], home]):
                await ask(f"{tag} has via {'main' if a == p['addr'] else 'home'}",
                          xo.has_actor(xo.create_actor_ref(a, uid.encode())))
            for a in addrs:
                n = "main" if a == p["addr"] else "home" if a == home else "member"
                await ask(f"{tag} find via {n}", find(a))
                r = await ask(f"{tag} call via {n}", call(a))
            return r[0] == "ok"

        there = await state("final")
        strat = A.strategy({"k": "index", "i": u["home"] % len(addrs)})
        if there:
            await ask("again create", create(home))
            await ask("again remove", xo.destroy_actor(xo.create_actor_ref(p["addr"], uid.encode())))
            await state("removed")
        else:
            await ask("fresh create", create(p["addr"], allocate_strategy=strat))
            await state("fresh")


C.AFTER["p07"] = after


# --------------------------------------------------------------------------- oracle
class Op:
    def __init__(self, o, s, e, st, r):
        self.o, self.k, self.s, self.e, self.st, self.r = o, o["k"], s, e, st, r

    def __repr__(self):
        return f"{self.k} {self.o['rid']} [{self.s},{self.e if self.e < INF else 'inf'}] {self.st}"


def alternates(muts, final=None):
    """Can the successful changes (and any of the uncertain ones) be put in an order consistent with real time in
    which creations and destructions alternate?  Returns the set of final states."""
    sure = [m for m in muts if m.st == "ok"]
    n = len(muts)
    seen, out = set(), set()
    stack = [(0, 0)]
    full = sum(1 << i for i, m in enumerate(muts) if m.st == "ok")
    while stack:
        done, live = stack.pop()
        if (done, live) in seen:
            continue
        seen.add((done, live))
        if done & full == full and live != 2:  # a creation that failed leaves nothing
            out.add(bool(live))
        for i, m in enumerate(muts):
            if done >> i & 1 or (m.k == "create") == bool(live):
                continue
            # every sure change that ended before this one began must be done
            if all(done >> j & 1 for j, x in enumerate(muts) if x.st == "ok" and x.e < m.s):
                stack.append((done | 1 << i, 0 if live else 2 if m.st == "hookerr" else 1))
    return out


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    by = {}
    for o in C.leaf_ops(plan["ops"]):
        cl, r = H.calls.get(o["rid"]), H.rets.get(o["rid"])
        if cl is None:
            continue
        d = f"{o['k']} {o['rid']} of {o['uid']}"
        if r is None:
            if not H.kind("callers_done"):
                continue
            out.append(Violation("hang", f"{d} never ended", op=o["k"]))
            continue
        e = r["i"]
        if r["st"] == "ok":
            st = "ok"
        elif r["st"] in ("cancelled", "aborted"):
            if o["rid"] not in H.cancels:
                out.append(Violation("cancelled", f"{d} was cancelled by nobody", op=o["k"]))
            st, e = "maybe", INF
        elif "ActorAlreadyExist" in r["mro"]:
            st = "exists"
        elif "ActorNotExist" in r["mro"]:
            st = "maybe" if o["k"] == "create" else "absent"  # destroyed while being created
        elif o["k"] == "create" and want_err(o) and want_err(o) in r["em"]:
            st = "hookerr"
            sim.probe("creation hook failed")
        elif o["k"] == "destroy" and any(x in r["em"] for x in ("app:", "value:", "key:", "kw:")):
            st = "hookerr"
            sim.probe("destruction hook failed")
        else:
            out.append(Violation("odd error", f"{d} failed with {r['et']} {r['em']}", op=o["k"], et=r["et"]))
            continue
        by.setdefault(o["uid"], []).append(Op(o, cl["i"], e, st, r))
    if out:
        return out
    ups = {}
    for r in H.kind("hook_create"):
        ups.setdefault((r["uid"], r["args"][0]), []).append(r)
    downs = {}
    for r in H.kind("hook_destroy"):
        downs.setdefault(r["inst"], []).append(r)
    insts = {r["inst"]: r for r in H.kind("hook_create")}
    finals = {}
    for r in H.kind("final"):
        finals.setdefault(r["uid"], {})[r["what"]] = r["r"]
    for u in plan["uids"]:
        out += check_uid(sim, u["uid"], by.get(u["uid"], []), ups, downs, insts, finals.get(u["uid"], {}), H)
    return out


def want_err(o):
    kw = o.get("kw", {})
    e = kw.get("init_err") or kw.get("create_err")
    return None if e is None else {"app": "app:", "value": "value:", "key": "key:", "kw": "kw:"}[e]


def check_uid(sim, uid, ops, ups, downs, insts, fin, H):
    out = []
    muts = [x for x in ops if x.k in ("create", "destroy") and x.st in ("ok", "maybe") or
            x.k == "create" and x.st == "hookerr"]
    creates = [x for x in ops if x.k == "create"]
    destroys = [x for x in ops if x.k == "destroy"]
    okc = [x for x in creates if x.st == "ok"]
    okd = [x for x in destroys if x.st == "ok"]
    if any(a is not b and a.s < b.e and b.s < a.e for a in muts for b in muts):
        sim.probe("overlapping changes")
    for x in muts:
        if x.st == "ok":
            sim.probe("created" if x.k == "create" else "destroyed")

    def may_exist(x):
        for c in creates:
            if c is x or c.s > x.e or c.st in ("exists",):
                continue
            if c.st == "hookerr":
                if c.e > x.s:
                    return True
                continue
            if not any(d.s > c.e and d.e < x.s for d in okd):
                return True
        return False

    def may_be_absent(x):
        """No creation that must be in effect all along."""
        for c in okc:
            if c is x or c.e > x.s:
                continue
            if not any(d is not x and d.st in ("ok", "maybe", "hookerr") and d.e > c.s and d.s < x.e
                       for d in destroys):
                return False
        return True

    ok_finals = alternates(muts)
    if not ok_finals:
        out.append(Violation("order", f"{uid}: no order explains these successful changes: {muts}"))
    for x in ops:
        d = f"{x.k} {x.o['rid']} of {uid} (via {x.o.get('slot')})"
        if x.k == "has" and x.st == "ok":
            if x.r["v"] is True and not may_exist(x):
                out.append(Violation("ghost", f"{d} says it exists, but it cannot"))
            if x.r["v"] is False and not may_be_absent(x):
                out.append(Violation("lost", f"{d} says it does not exist, but it must"))
        elif x.k in ("ref", "calluid") and x.st == "ok" and not may_exist(x):
            out.append(Violation("ghost", f"{d} found it, but it cannot exist"))
        elif x.k in ("ref", "calluid", "destroy") and x.st == "absent":
            sim.probe("not there")
            if not may_be_absent(x):
                out.append(Violation("lost", f"{d} says it does not exist, but it must", op=x.k))
        elif x.k == "create" and x.st == "exists":
            sim.probe("already exists")
            if not may_exist(x):
                out.append(Violation("ghost", f"{d} says it already exists, but it cannot", op=x.k))
        elif x.k == "destroy" and x.st == "hookerr" and not may_exist(x):
            out.append(Violation("ghost", f"{d} destroyed something that cannot exist", op=x.k))
        if x.k == "calluid" and x.st == "ok":
            v = x.r["v"]
            if v[0] != x.o["rid"] or v[1] != uid:
                out.append(Violation("answer", f"{d} was answered {v}"))
    # hooks
    for x in creates:
        n = len(ups.get((uid, x.o["rid"]), ()))
        if x.st == "ok" and n != 1:
            out.append(Violation("creation hook", f"{uid}: creation {x.o['rid']} succeeded, hook ran {n} times"))
        if n > 1 or n and x.st in ("exists", "absent"):
            out.append(Violation("creation hook", f"{uid}: creation {x.o['rid']} ended as {x.st}, hook ran {n} times"))
    gone = 0
    for i, r in insts.items():
        if r["uid"] != uid:
            continue
        ds = downs.get(i, [])
        bad = sum(1 for e in H.kind("destroy_err") if e["inst"] == i)
        # only the first may be followed by more: those that came after one that failed
        if len(ds) - bad > 1 + sum(1 for x in destroys if x.st == "maybe"):
            out.append(Violation("destruction hook", f"{uid}: destruction hook of one actor ran {len(ds)} times, "
                                 f"{bad} of them failed"))
        gone += any(e["inst"] == i for e in H.kind("actor_down"))
    if len(okd) > gone:
        out.append(Violation("destruction hook", f"{uid}: {len(okd)} destructions succeeded, {gone} actors ended"))
    # nothing reaches an actor after its destruction
    for x in ops:
        if x.k == "calluid" and x.st == "ok":
            i = x.r["v"][2]
            e = [r for r in H.kind("actor_down") if r["inst"] == i]
            if e and x.s > e[0]["i"] and any(d.e < x.s and d.s < e[0]["i"] for d in okd):
                out.append(Violation("ghost", f"calluid {x.o['rid']} answered by a destroyed actor"))
    if not fin or not ok_finals:
        return out
    # the end
    ans = {k: v for k, v in fin.items() if k.startswith("final ")}
    pos = [k for k, v in ans.items() if v[0] == "ok" and v[1]]
    neg = [k for k, v in ans.items() if v[0] == "ok" and not v[1] or v[0] == "err" and "ActorNotExist" in v[1]]
    odd = [k for k in ans if k not in pos and k not in neg]
    if odd:
        out.append(Violation("final odd", f"{uid}: in the end {odd[0]} gives {ans[odd[0]]}"))
    elif pos and neg:
        out.append(Violation("final split", f"{uid}: in the end {pos} say it is there, {neg} that it is not",
                             pos=pos, neg=neg))
    elif bool(pos) not in ok_finals:
        out.append(Violation("final state", f"{uid}: in the end it is {'there' if pos else 'gone'}, "
                             f"which no order of {muts} explains"))
    else:
        if pos:
            if not (fin["again create"][0] == "err" and "ActorAlreadyExist" in fin["again create"][1]):
                out.append(Violation("final", f"{uid}: creating it again gave {fin['again create']}"))
            r = fin["again remove"]
            if r[0] == "ok":
                exp = False
            elif any(x in r[2] for x in ("app:", "value:", "key:", "kw:")):
                exp = True  # its hook fails always
            else:
                out.append(Violation("final", f"{uid}: destroying it gave {r}"))
                return out
            tag = "removed "
        else:
            if fin["fresh create"] != ["ok", True]:
                out.append(Violation("final", f"{uid}: creating it again gave {fin['fresh create']}"))
                return out
            exp, tag = True, "fresh "
        for k, v in fin.items():
            if k.startswith(tag) and "create" not in k:
                good = v == ["ok", True] if exp else v == ["ok", False] or v[0] == "err" and "ActorNotExist" in v[1]
                if not good:
                    out.append(Violation("final", f"{uid}: at last, {k} gave {v}", k=k))
                    break
    return out


