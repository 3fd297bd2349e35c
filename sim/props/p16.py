"""P16: calls through proxies behave like direct calls."""
import asyncio

from ..kernel import SEC
from ..world import Violation
from . import common as C

RUNS = {"quick": 700, "thorough": 20000}
IMAGES = 20
NEED = {"via 1 hop": 200, "via 2 hops": 100, "via 3 hops or more": 20, "proxy of a proxy": 50, "sequences": 50,
        "cancelled at the far end": 30, "failed with its hop": 10, "bystander of a dead hop": 20, "told": 20,
        "bare client by proxy": 100, "ordered": 100}
LONG = 20000
BOUND_S = 8.0
GRACE = 4 * SEC
LOST = ("ServerClosed", "ConnectionError", "OSError", "EOFError", "CancelledError")


# ----------------------------------------------------------------- reference model
class Route:
    """The documented meaning of a proxy configuration: address before host before wildcard; the
    proxy of a proxy is followed; one's own process is no proxy of its own."""

    def __init__(self, plan):
        self.conf, self.of, self.host, self.members = [], {}, {}, []
        for i, p in enumerate(plan["pools"]):
            self.conf.append(p["kw"].get("proxy_conf", {}))
            ms = [C.addr_of(plan, i)] + [f"{C.ip(p['host'])}:{x}" for x in p["kw"].get("ports", [])]
            self.members.append(ms)
            for a in ms:
                self.of[a] = i
                self.host[a] = a.split(":")[0]

    @staticmethod
    def one(conf, a):
        for key in (a, a.split(":")[0], "*"):
            if conf.get(key) not in (None, a):
                return conf[key]

    def proxies(self, a):
        """What a reference to `a` carries."""
        conf, out = self.conf[self.of[a]], []
        while True:
            a = self.one(conf, a)
            if a is None:
                return out
            out.append(a)
            if len(out) > 8:
                raise ValueError("cycle")

    def contact(self, i, me, a):
        """Whom process `me` of pool i turns to in order to reach a."""
        for _ in range(9):
            p = self.one(self.conf[i], a)
            if p is None or p == me:
                return a
            a = p
        raise ValueError("cycle")

    def path(self, me, dest, byref):
        """Processes a message passes, the last of which is dest. me=None: not in a pool."""
        out = []
        if me is None:
            ps = self.proxies(dest) if byref else []
            cur = ps[-1] if ps else dest
            out.append(cur)
        else:
            if self.of[me] == self.of[dest]:
                return [dest]
            ps = self.proxies(dest) if byref else []
            cur = self.contact(self.of[me], me, ps[-1] if ps else dest)
            out.append(cur)
        while cur != dest:
            if self.of[cur] == self.of[dest]:
                cur = dest
            else:
                cur = self.contact(self.of[cur], cur, dest)
            out.append(cur)
            if len(out) > 7:
                raise ValueError("cycle")
        return out

    def valid(self):
        every = [a for m in self.members for a in m]
        try:
            for i, conf in enumerate(self.conf):
                for a in every:
                    self.contact(i, None, a)
            for d in every:
                for me in every + [None]:
                    self.path(me, d, True)
                    if me is not None:
                        self.path(me, d, False)
        except ValueError:
            return False
        return True


# ------------------------------------------------------------------------ generator
def gen_conf(rng, plan):
    pools = plan["pools"]
    n = len(pools)
    main = [C.addr_of(plan, i) for i in range(n)]
    conf = [dict() for _ in range(n)]
    for i, p in enumerate(pools):
        p["kw"]["proxy_conf"] = conf[i]
    shared = len({p["host"] for p in pools}) < n

    def key(j, kind):
        p = pools[j]
        if kind == "host" and not shared:
            return [C.ip(p["host"])]
        return [main[j]] + [f"{C.ip(p['host'])}:{x}" for x in p["kw"]["ports"]]

    def attempt(f):
        old = [dict(c) for c in conf]
        f()
        if not Route(plan).valid():
            for c, o in zip(conf, old):
                c.clear()
                c.update(o)

    style = rng.choice(["tree", "tree", "tree", "chain", "random"])
    if style == "tree":
        parent = [None] + [rng.choice([i - 1, rng.randrange(i)]) for i in range(1, n)]

        def hop(i, j):  # next pool from i towards j
            x = j
            while x is not None:
                if parent[x] == i:
                    return x
                x = parent[x]
            return parent[i]
        for i in range(n):
            far = [(j, hop(i, j)) for j in range(n) if j != i and hop(i, j) != j]
            hs = {h for _, h in far}
            if len(hs) == 1 and rng.random() < 0.5:
                attempt(lambda: conf[i].update({"*": main[hs.copy().pop()]}))
            else:
                kind = rng.choice(["host", "addr"])
                for j, h in far:
                    attempt(lambda: conf[i].update({k: main[h] for k in key(j, kind)}))
    elif style == "chain":  # d by b, b by c: c is the one to contact
        for i in range(n):
            others = [j for j in range(n) if j != i]
            rng.shuffle(others)
            m = rng.randint(1, len(others))
            for a, b in zip(others[:m], others[1:m]):
                attempt(lambda: conf[i].update({k: main[b] for k in key(a, rng.choice(["host", "addr"]))}))
    for i in range(n):
        if rng.random() < 0.35 and not shared:
            attempt(lambda: conf[i].update({C.ip(pools[i]["host"]): main[i]}))
    for _ in range(rng.choice([0, 1, 3] if style != "random" else [2, 4, 8])):
        i, j, h = rng.randrange(n), rng.randrange(n), rng.randrange(n)
        kind = rng.choice(["host", "addr", "*"])
        ks = ["*"] if kind == "*" else key(j, kind)
        if rng.random() < 0.3:
            ks = [rng.choice(ks)]
        via = main[h]
        if rng.random() < 0.2 and pools[h]["kw"]["ports"]:
            via = f"{C.ip(pools[h]['host'])}:{rng.choice(pools[h]['kw']['ports'])}"
        attempt(lambda: conf[i].update({k: via for k in ks}))


def gen(rng, tier, i):
    n = rng.choice([2, 2, 3, 3, 3, 4, 4])
    pools = []
    for j in range(n):
        m = rng.choice([0, 0, 1, 2])
        pools.append({"host": j, "n": m, "kw": {"auto_recover": False, "ports": [7100 + 10 * j + s for s in range(m)]}})
    if rng.random() < 0.2:
        pools[1]["host"] = 0
    plan = {"pools": pools, "dials": True}
    for _ in range(20):
        gen_conf(rng, plan)
        r = Route(plan)
        if any(len(r.path(a, d, b)) > 1 for a in r.of for d in r.of for b in (True, False) if r.of[a] != r.of[d]):
            break
    plan["actors"] = [{"pool": rng.randrange(n), "slot": rng.randrange(4), "cls": "TS" if rng.random() < 0.3 else "T"}
                      for _ in range(rng.randint(2, 4))]
    plan["callers"] = []
    for w in range(rng.randint(2, 5)):
        x = rng.random()
        if x < 0.6:
            c = {"who": w, "at": "actor", "pool": rng.randrange(n), "slot": rng.randrange(4)}
        elif x < 0.75:
            c = {"who": w, "at": "main", "pool": rng.randrange(n)}
        else:
            c = {"who": w, "at": "client", "host": 6}
        plan["callers"].append(c)
    plan["knobs"] = C.swarm(rng)
    span = rng.choice([30, 200, 1500])
    ops, na = [], len(plan["actors"])
    for x in range(rng.randint(8, 28)):
        k = rng.random()
        a = rng.randrange(na)
        ms = rng.choice([0, 0, 1, 5, 40])
        if k < 0.45:
            o = {"k": "send", "a": a, "m": rng.choice(["do", "do", "free", "sdo", "bplain"]), "ms": ms,
                 "pay": C.gen_pay(rng)}
            if rng.random() < 0.15:
                o["err"] = rng.choice(["app", "kw", "value"])
            elif rng.random() < 0.3 and o["m"] in ("do", "free"):
                o["ms"] = rng.choice([20, 300, LONG])
                o["cancel"] = rng.choice([0, 0.3, 1, 3, 10, 40, 250])
                o["pay"] = None
        elif k < 0.55:
            o = {"k": "tell", "a": a, "m": rng.choice(["do", "free"]), "ms": ms, "pay": C.gen_pay(rng)}
        elif k < 0.62:
            o = {"k": "batch", "a": a, "m": "bplain", "items": [{"ms": 0} for _ in range(rng.randint(1, 3))]}
        elif k < 0.7:
            o = {"k": "relay", "a": a, "b": rng.randrange(na), "ms": ms}
            if o["b"] <= a:
                o["tell"] = True
        elif k < 0.74:
            o = {"k": "has", "uid": "nobody", "pool": rng.randrange(n), "slot": rng.randrange(3)}
        else:
            p = rng.randrange(n)
            uid = f"u{x}"
            sl = rng.randrange(pools[p]["n"] + 1)
            seq = []
            for kk in ["create"] + [rng.choice(["has", "ref", "calluid", "calluid", "create"]) for _ in range(2)] + \
                    ["destroy"] + [rng.choice(["has", "ref", "calluid", "destroy"]) for _ in range(2)]:
                s = {"k": kk, "uid": uid, "pool": p, "slot": sl}
                if kk in ("has", "ref", "calluid", "destroy") and rng.random() < 0.3:
                    s["slot"] = "main"
                seq.append(s)
            o = {"k": "seq", "ops": seq}
        o["c"] = rng.randrange(len(plan["callers"]))
        if plan["callers"][o["c"]]["at"] == "client":  # where to create is told without a reference
            r = Route(plan)
            for s in o.get("ops", []):
                if s["k"] == "create" and r.proxies(r.members[s["pool"]][s["slot"]]):
                    o["c"] = next((c["who"] for c in plan["callers"] if c["at"] != "client"), None)
        if o["c"] is None:
            continue
        if rng.random() < 0.75:
            o["at"] = round(rng.random() * span, 2)
        ops.append(o)
    C.mainrefs(rng, ops)
    C.number(ops)
    plan["ops"] = ops
    plan["faults"] = []
    if rng.random() < 0.5:
        plan["faults"] = C.fault_calls(rng, plan, rng.randint(1, 3),
                                       kinds=("killmain", "killmain", "kill", "reset", "reset", "stop", "partition", "clock"),
                                       span_ms=span)
        plan["faults_until_ms"] = span + 500
    plan["deadline"] = 60
    plan["settle"] = 13.0
    plan["before_go"] = "p16"
    plan["probe_actors"] = True
    plan["probe_s"] = 40
    return plan


async def before(ctx, sim, plan):
    await asyncio.sleep(0)


C.BEFORE["p16"] = before


def setup(sim, plan):
    r = Route(plan)
    sim.proxies = {a: r.proxies(a) or None for a in r.of}
    C.setup_calls(sim, plan)


# ---------------------------------------------------------------------------- oracle
SEQ_ERR = {"ActorNotExist", "ActorAlreadyExist"}


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    R = Route(plan)
    for a in R.members:
        pass
    callers = {c["who"]: c for c in plan["callers"]}
    ups = {r["pool"]: r for r in H.kind("pool_up")}
    for i, r in ups.items():
        if r["subs"] != R.members[i]:
            raise AssertionError(f"{r['subs']} {R.members[i]}")
    # who is who
    addr_of_pid = {}
    for r in H.kind("listen"):
        if r["addr"] in R.of:
            addr_of_pid[r["pid"]] = r["addr"]
    role = {p.pid: p.role for p in sim.k.procs.values()}
    # ---- connections
    for r in H.kind("dial"):
        d = r["addr"]
        me = addr_of_pid.get(r["pid"])
        if me is None:
            if role[r["pid"]].startswith("client"):
                far = R.proxies(d) if d in R.of else None
                good = {(R.proxies(x) or [x])[-1] for x in R.of}
                if d not in good:
                    out.append(Violation("direct", f"a client outside of the pools connects to {d}, references to which "
                                         f"carry the proxies {far}", who="client"))
            continue
        i = R.of[me]
        if d not in R.of or R.of[d] == i:
            continue
        c = R.contact(i, me, d)
        if c != d:
            out.append(Violation("direct", f"{me}, whose configuration is {R.conf[i]}, connects to {d} itself, which "
                                 f"it is to reach by {c}", who="pool"))
    # ---- faults
    dead, resets, slow = {}, [], 0
    for r in H.kind("fault"):
        if r["kind"] == "kill":
            a = addr_of_pid.get(r["pid"])
            if a is None:
                continue
            for x in (R.members[R.of[a]] if a == R.members[R.of[a]][0] else [a]):
                dead.setdefault(x, r)
        elif r["kind"] == "reset":
            resets.append(r)
        elif r["kind"] in ("stop", "partition"):
            slow = 4
    bound = int((BOUND_S + slow) * SEC)
    fin = (H.kind("finish") or [{"t": 1 << 62, "i": 1 << 62}])[0]

    def me_of(c):
        cl = callers[c]
        if cl["at"] == "client":
            return None
        m = R.members[cl["pool"]]
        return m[cl.get("slot", 0) % len(m)] if cl["at"] == "actor" else m[0]

    def target(a):
        s = plan["actors"][a]
        m = R.members[s["pool"]]
        return m[s.get("slot", 0) % len(m)]

    def paths(o):
        """All the ways an operation needs; a way starts with where it leads from."""
        me = me_of(o["c"])
        ps = []
        if "a" in o:
            d = target(o["a"])
            if o.get("mainref"):
                m = R.members[R.of[d]][0]
                p = R.path(me, m, me is None)
                ps.append([me] + p + ([d] if d != m else []))
            else:
                ps.append([me] + R.path(me, d, True))
            if o["k"] == "relay":
                e = target(o["b"])
                # the reference handed over: as the caller holds it
                if o.get("mainref"):
                    m = R.members[R.of[e]][0]
                    ps.append([d] + R.path(d, m, me is None) + ([e] if e != m else []))
                else:
                    ps.append([d] + R.path(d, e, True))
        else:
            m = R.members[o["pool"]]
            x = m[0] if o["slot"] == "main" else m[o["slot"] % len(m)]
            ps.append([me] + R.path(me, x, me is None))
            if o["k"] == "calluid":
                for y in m:
                    ps.append([me] + R.path(me, y, True))
            if dead:
                ps[0] += [y for y in m if y in dead]
        return ps

    def hit(o, until, since=0):
        """May this operation have been affected by a fault before `until`?"""
        me = me_of(o["c"])
        if me in dead:
            return True
        for p in paths(o):
            for x in p[1:]:
                if x in dead and dead[x]["i"] < until["i"]:
                    return True
            hs = [R.host[x] if x else C.ip(6) for x in p]
            for r in resets:
                if r["i"] > until["i"] or r["t"] + GRACE + slow * SEC < since:
                    continue
                ends = {eval(r["a"])[0], eval(r["b"])[0]}
                if any({x, y} == ends for x, y in zip(hs, hs[1:])):
                    return True
        return False

    def hops(o):
        return max(len(p) - 2 for p in paths(o))

    # ---- order, as over a direct connection
    groups = {}
    for o in C.leaf_ops(plan["ops"]):
        if o["k"] in ("send", "tell") and o["m"] != "bplain" and not o.get("mainref") and not resets and not dead:
            cl, st = H.calls.get(o["rid"]), H.starts.get(o["rid"], [])
            if cl is None or len(st) != 1 or me_of(o["c"]) is None or o.get("pay") and o["pay"][0] == "l":
                continue
            if hops(o) < 1:
                continue
            lock = "any" if plan["actors"][o["a"]]["cls"] == "TS" else o["m"] == "free"
            groups.setdefault((o["c"], o["a"], lock), []).append((cl["i"], st[0]["i"], o))
    for g in groups.values():
        g.sort(key=lambda x: x[0])
        for x, y in zip(g, g[1:]):
            if y[1] < x[1]:
                out.append(Violation("reordered", f"caller {x[2]['c']} issued {x[2]['rid']} before {y[2]['rid']} to actor "
                                     f"a{x[2]['a']} ({paths(x[2])}), which started them the other way round"))
                break
            sim.probe("ordered")

    state = {}   # uid -> "" | "here" | None (unknown)
    last_order = {}
    for o in C.leaf_ops(plan["ops"]):
        cl, r, cc = H.calls.get(o["rid"]), H.rets.get(o["rid"]), H.cancels.get(o["rid"])
        if cl is None:
            continue
        d = f"{o['k']} {o['rid']} {o.get('m') or o.get('uid') or ''}"
        where = f"{me_of(o['c'])} by {paths(o)}"
        touched = hit(o, r or fin, cl["t"])
        rids = [x["rid"] for x in o["items"]] if o["k"] == "batch" else [o["rid"]]
        if o["k"] == "relay":
            rids.append(o["rid2"])
        for x in rids:
            if len(H.starts.get(x, [])) > 1:
                out.append(Violation("ran twice", f"the body of {d} ran {len(H.starts[x])} times"))
        if me_of(o["c"]) in dead:
            continue
        if r is None:
            out.append(Violation("hangs", f"{d} never ended ({where})", op=o["k"]))
            continue
        if cc is not None and cc["i"] < r["i"]:
            if r["st"] == "err" and not touched:
                out.append(Violation("wrong end", f"{d}, cancelled, gave {r['et']} {r['em']} ({where})", op=o["k"]))
            if r["t"] - cc["t"] > bound:
                out.append(Violation("hangs", f"{d}: did not end within {bound / SEC:.0f} s after it was cancelled ({where})",
                                     op="cancel"))
            st = H.starts.get(o["rid"])
            if st and not touched and not hit(o, fin, cl["t"]):
                en = (H.ends.get(o["rid"]) or [None])[0]
                late = st[0]["i"] > cc["i"]
                if en is None and fin["t"] - cc["t"] < bound or late and callers[o["c"]]["at"] == "client":
                    continue
                if en is None or en["t"] - max(cc["t"], st[0]["t"]) > bound:
                    out.append(Violation("not delivered", f"the body of {d} ({where}) did not observe the cancellation "
                                         f"within {bound / SEC:.0f} s", op="cancel"))
                elif en["st"] == "CancelledError" and hops(o) > 0:
                    sim.probe("cancelled at the far end")
            continue
        if r["st"] == "err" and touched and any(x in r["mro"] for x in (LOST + ("ActorNotExist",) if dead else LOST)):
            sim.probe("failed with its hop")
            if "uid" in o:
                state[o["uid"]] = None
            continue
        if r["st"] == "cancelled":
            if touched:
                if "uid" in o:
                    state[o["uid"]] = None
                continue
            out.append(Violation("wrong end", f"{d}, which nobody cancelled, was cancelled ({where})", op=o["k"]))
            continue
        if dead and not touched and r["i"] > min(x["i"] for x in dead.values()):
            sim.probe("bystander of a dead hop")
        h = hops(o)
        if h > 0:
            sim.probe("via 1 hop" if h == 1 else "via 2 hops" if h == 2 else "via 3 hops or more")
            if me_of(o["c"]) is None:
                sim.probe("bare client by proxy")
        # ---- the outcome
        if "uid" in o:
            k, u = o["k"], o["uid"]
            s = state.setdefault(u, "")
            if s is None:
                continue
            sim.probe("sequences")
            here = s == "here"
            m = R.members[o["pool"]]
            at = m[0] if o["slot"] == "main" else m[o["slot"] % len(m)]
            want = None
            if k == "create" and not here:
                state[u] = "here"
                state[u, "at"] = at
                want = ("ok", [at, u])
            elif k == "create":
                want = ("err", "ActorAlreadyExist")
            elif k == "has":
                want = ("ok", here)
            elif not here:
                want = ("err", "ActorNotExist")
            elif k == "ref":
                want = ("ok", state[u, "at"])
            elif k == "destroy":
                state[u] = ""
                want = ("ok", None)
            got = (r["st"], r["v"] if r["st"] == "ok" else r["et"])
            if k == "calluid" and here:
                if r["st"] != "ok" or r["v"][0] != o["rid"] or r["v"][1] != u:
                    out.append(Violation("outcome", f"{d} gave {got} {r.get('em', '')} ({where})", op=k))
            elif want[0] != got[0] or (want[1] != got[1] if got[0] == "ok" else want[1] not in r["mro"]):
                out.append(Violation("outcome", f"{d} gave {got} {r.get('em', '')}, a direct connection gives {want} ({where})", op=k))
            continue
        if o.get("err"):
            if r["st"] != "err" or not any(x in r["mro"] for x in ("AppError", "KwError", "ValueError")):
                out.append(Violation("outcome", f"{d}, whose body raises, gave {r['st']} {r.get('v')} {r.get('et')} {r.get('em')} ({where})", op=o["k"]))
            continue
        if r["st"] == "err":
            out.append(Violation("outcome", f"{d} gave {r['et']} {r['em']} ({where})", op=o["k"]))
            continue
        if isinstance(r["v"], dict) and "bad" in r["v"]:
            out.append(Violation("wrong value", f"{d}: {r['v']['bad']} ({where})", op=o["k"]))
        if o["k"] == "tell" or o.get("tell"):
            if hit(o, fin, cl["t"]) or fin["t"] - cl["t"] < bound:
                continue
            sim.probe("told")
        for x in rids:
            if len(H.starts.get(x, [])) != 1:
                out.append(Violation("lost", f"{d} ended well, but its body ran {len(H.starts.get(x, []))} times ({where})", op=o["k"]))
    for p in H.kind("probe_actor"):
        if p["st"] != "ok":
            out.append(Violation("actor stuck", f"actor {p['uid']} does not accept the next call: {p['em']}"))
    for i, a in enumerate(plan["actors"]):
        pass
    if any(len(R.proxies(a)) > 1 for a in R.of) or any(
            R.one(R.conf[i], R.one(R.conf[i], a) or a) for i in range(len(R.conf)) for a in R.of if R.one(R.conf[i], a)):
        sim.probe("proxy of a proxy")
    return out


RULE = ("every connection opened is one the configuration allows; every outcome is that of a direct connection (values, "
        "errors, look-ups against a sequential model, effects exactly once, cancellations delivered); only operations "
        "whose way leads through a failed hop may fail, with a connection error, and none hangs")
REAL = "router, forwarding, context, actor callers, pools, socket channels; all of xoscar"
ASSUME = ["control messages (pool configuration, killing, waiting for recovery) are not part of the property"]
