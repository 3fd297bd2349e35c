"""P19: messages survive any segmentation; bad bytes harm only their connection."""
import asyncio

from ..kernel import MS, SEC
from ..world import Violation
from . import common as C

RUNS = {"quick": 700, "thorough": 20000}
IMAGES = 24
NEED = {"channel: intact": 1000, "channel: sent concurrently": 100, "channel: cut": 20, "channel: throttled": 10,
        "malformed: closed": 100, "truncated": 20, "valid before malformed": 20, "healthy beside rogues": 500,
        "rogue server: right answer": 50, "rogue server: malformed": 50, "reconnected": 20}
BOUND = 6 * SEC
LOST = ("ServerClosed", "ConnectionError", "OSError", "EOFError", "ChannelClosed")
SURE = ["version", "http", "noise", "nopickle", "nolist", "noserializer"]
ODD_OPEN = ["cancel", "noactor", "content", "has", "destroy", "forward", "control", "unload"]
ODD = ODD_OPEN + ["none", "int", "dict", "result", "error", "content2"]
ROGUE_PORT = 7900


def net_knobs(rng, knobs):
    if rng.random() < 0.6:
        knobs["mss"] = rng.choice([1448, 1448, 300, 64])
    if rng.random() < 0.5:
        knobs["sndbuf"] = rng.choice([2048, 8192, 65536])
    if rng.random() < 0.5:
        knobs["frag_p"] = rng.choice([0.1, 0.5, 0.9])
    return {64: 8000, 300: 40000, 1448: 300000, None: 600000}[knobs.get("mss")]


def gen_msg(rng, budget):
    kind = rng.choice(["b", "a", "f", "l", "m", "bs", "s", "za", "mv", "ba"])
    n = rng.choice([0, 1, 3, 11, 100, 1500, 9000, 70000])
    per = {"a": 8, "f": 8, "bs": 7, "za": 12, "l": 12, "mv": 40, "s": 2}.get(kind, 1)
    n = min(n, 400 if kind in ("l", "mv") else 1 << 30, max(3, budget // per))
    return [kind, n, rng.randrange(1000)], n * per + 200


def gen_chan(rng, plan):
    plan["mode"] = "chan"
    plan["scheme"] = rng.choice(["tcp", "tcp", "tcp", "unix", "dummy"])
    left = net_knobs(rng, plan["knobs"])
    conns = {}
    s = 0
    span = rng.choice([1, 20, 200])
    for t in range(rng.randint(1, 3)):
        senders = []
        for _ in range(rng.choice([1, 2, 4, 8])):
            msgs = []
            for _ in range(rng.randint(1, 6)):
                m, size = gen_msg(rng, min(left, 120000))
                left = max(0, left - size)
                msgs.append(m)
            x = {"side": rng.choice("SCC"), "s": s, "msgs": msgs, "at": round(rng.random() * span, 2)}
            s += 1
            if rng.random() < 0.3:
                x["gap"] = rng.choice([0.1, 2, 30])
            if rng.random() < 0.15:
                x["cancel"] = [rng.randrange(len(msgs)), rng.choice([0, 0.05, 0.5, 5])]
            senders.append(x)
        c = {"senders": senders, "receivers": rng.choice([1, 1, 1, 2, 3])}
        if rng.random() < 0.2:
            c["slow"] = rng.choice([1, 20])
        if rng.random() < 0.4:
            c["compress"] = rng.choice([0, 1, 2])
        if rng.random() < 0.2:
            c["close"] = {"side": rng.choice("SC"), "at": round(rng.random() * span * 3, 2)}
        conns[str(t)] = c
    plan["conns"] = conns
    plan["pools"] = []
    plan["ops"] = []
    fs = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice(["reset", "stop", "partition"])
        f = {"kind": k, "trigger": {"at_ms": round(rng.random() * span * 2, 2)}}
        if k == "reset":
            f["n"] = rng.randrange(4)
        elif k == "stop":
            f.update(target=rng.choice(["server", "client"]), main_ok=True, ok=["server", "client"], for_ms=rng.choice([5, 300, 2000]))
        else:
            f.update(a=0, b=1, for_ms=rng.choice([5, 300, 2000]))
        fs.append(f)
    plan["faults"] = fs


def gen_rogue(rng, plan):
    plan["mode"] = "rogue"
    budget = min(net_knobs(rng, plan["knobs"]), 200000)
    top = C.gen_topology(rng, npools=(1, 2), nsub=(0, 2), nact=(1, 3), ncall=(2, 4), stateless=0.3)
    plan.update(top)
    span = rng.choice([10, 60, 400])
    ops = []

    def pay():
        nonlocal budget
        kind = rng.choice([None, None, "b", "a", "l", "m", "bs", "s", "f"])
        if kind is None:
            return None
        n = min(rng.choice([0, 1, 7, 300, 1500, 9000]), 300 if kind == "l" else 1 << 30)
        budget -= n * 8
        return [kind, n, rng.randrange(1000)] if budget > 0 else None
    for _ in range(rng.randint(8, 30)):
        ops.append({"k": rng.choice(["send", "send", "send", "tell"]), "a": rng.randrange(len(plan["actors"])),
                    "m": rng.choice(["do", "free", "sdo", "bplain"]), "ms": rng.choice([0, 0, 1, 10]), "pay": pay()})
        if ops[-1]["k"] == "send" and rng.random() < 0.4:
            ops[-1]["out"] = pay()
    hasrs = rng.random() < 0.6
    if hasrs:
        plan["rs_host"] = 4
        for _ in range(rng.randint(2, 10)):
            k = rng.choice(["ok", "ok", "ok", "twice", "foreign", "trunc", "end", "bad", "bad", "okbad", "odd", "silent"])
            act = {"k": k, "ms": rng.choice([0, 0, 1, 20, 200])}
            if k == "ok":
                act["pay"] = pay()
                if rng.random() < 0.4:
                    act["chunk"] = rng.choice([1, 5, 100])
                    act["pay"] = None
            elif k in ("trunc", "end"):
                act.update(cut=rng.random(), end=rng.choice(["close", "abort"]))
            elif k == "bad":
                act.update(o=rng.choice(SURE + ["short", "huge"]), seed=rng.randrange(1 << 20))
            elif k == "okbad":
                act.update(o=rng.choice(SURE), seed=rng.randrange(1 << 20))
            elif k == "odd":
                act["o"] = rng.choice(["none", "int", "dict", "has"])
            ops.append({"k": "rcall", "act": act, "addr": f"{C.ip(4)}:{ROGUE_PORT}"})
    for o in ops:
        o["c"] = rng.randrange(len(plan["callers"]))
        if rng.random() < 0.7:
            o["at"] = round(rng.random() * span * (1 if o["k"] != "rcall" else 3), 2)
    n = C.number(ops)
    plan["ops"] = ops
    plan["rogues"] = []
    for x in range(rng.randint(1 if not hasrs else 0, 5)):
        frames = []
        for _ in range(rng.randint(0, 4)):
            r = rng.random()
            if r < 0.55:
                frames.append({"k": "call", "rid": n, "m": rng.choice(["do", "sdo"])})
                if rng.random() < 0.3:
                    frames[-1]["pay"] = pay()
                if rng.random() < 0.3:
                    frames[-1]["compress"] = rng.choice([1, 2])
            elif r < 0.75:
                frames.append({"k": "odd", "o": rng.choice(ODD), "rid": n})
            else:
                frames.append({"k": "bad", "o": rng.choice(SURE), "rid": n, "seed": rng.randrange(1 << 20)})
            if rng.random() < 0.3:
                frames[-1]["gap"] = rng.choice([0.1, 5, 100])
            n += 1
        r = rng.random()
        if r < 0.35:
            frames.append({"k": "call", "rid": n, "cut": rng.choice([rng.random(), 0.999])})
        elif r < 0.7 or not frames:
            frames.append({"k": "bad", "o": rng.choice(SURE + ["short", "huge", "huge"]), "rid": n, "seed": rng.randrange(1 << 20)})
        n += 1
        g = {"n": x, "a": rng.randrange(len(plan["actors"])), "at": round(rng.random() * span, 2), "frames": frames,
             "host": rng.choice([3, 5]), "stay": rng.choice([0, 0, 1, 300]), "end": rng.choice(["close", "abort", "half", "stay"])}
        if rng.random() < 0.3 and not any((f.get("pay") or "  ")[1] > 300 for f in frames if f.get("pay")):
            g["chunk"] = rng.choice([1, 7, 50])
        plan["rogues"].append(g)
    plan["faults"] = []
    if rng.random() < 0.3:
        plan["faults"] = C.fault_calls(rng, plan, 1, kinds=("reset", "stop", "partition", "clock"), span_ms=span)
    plan["final_ms"] = span * 3 + (8000 if hasrs else 1500)
    plan["deadline"] = plan["final_ms"] / 1000 + 12
    plan["settle"] = 7.0
    plan["probe"] = True
    plan["probe_actors"] = True
    plan["linger"] = 0.1


def gen(rng, tier, i):
    plan = {"knobs": C.swarm(rng, heavy=False)}
    (gen_chan if rng.random() < 0.4 else gen_rogue)(rng, plan)
    return plan


# ---------------------------------------------------------------------------- set-up
def setup(sim, plan):
    if plan["mode"] == "chan":
        return setup_chan(sim, plan)
    C.setup_calls(sim, plan)
    if "rs_host" in plan:
        acts = {str(o["rid"]): o["act"] for o in plan["ops"] if o["k"] == "rcall"}

        async def rs(ctx):
            ws = await ctx.A.rogue_server(C.ip(plan["rs_host"]), ROGUE_PORT, acts)
            await sim.event("final").wait()
            ctx.rec("rs_final")
            for w in ws:
                w.close()
            await sim.event("stop").wait()
        sim.proc(plan["rs_host"], "rserver", rs)
    for g in plan["rogues"]:
        async def rg(ctx, g=g):
            await sim.event("go").wait()
            await ctx.A.rogue_client(g, sim.targets, sim.pools)
        sim.proc(g["host"], f"rogue{g['n']}", rg)


def setup_chan(sim, plan):
    sch = plan["scheme"]
    addr = {"tcp": f"{C.ip(0)}:7000", "unix": "unixsocket:///777", "dummy": "dummy://777"}[sch]

    async def client(ctx):
        await sim.event("up").wait()
        ctx.rec("go")
        sim.t_go = ctx.now
        sim.arm()
        rs = []

        async def one(tag):
            try:
                rs.append(await ctx.A.chan_client(plan, tag, addr))
            except Exception as e:
                ctx.rec("chan_failed", tag=tag, et=type(e).__name__, mro=[c.__name__ for c in type(e).__mro__], em=str(e)[:200])
        ts = [asyncio.ensure_future(one(t)) for t in plan["conns"]]
        await asyncio.wait(ts, timeout=60)
        total = sum(len(s["msgs"]) for c in plan["conns"].values() for s in c["senders"])
        for _ in range(120):
            if sum(1 for r in sim.k.history if r["k"] == "crecv") >= total:
                break
            await asyncio.sleep(0.1)
        ctx.rec("closing_all")
        for c, _ in rs:
            try:
                await c.close()
            except OSError:
                pass
        await asyncio.sleep(1.5)
        ctx.rec("finish")
        sim.event("stop").set()

    async def server(ctx):
        s = await ctx.A.chan_server(plan, addr)
        sim.event("up").set()
        if sch == "dummy":
            await client(ctx)
        await sim.event("stop").wait()
        try:
            await s.stop()
        except OSError:
            pass

    sim.proc(0, "server", server)
    if sch != "dummy":
        sim.proc(1 if sch == "tcp" else 0, "client", client)


# ---------------------------------------------------------------------------- oracles
def check(sim, plan, hist, reason):
    return (check_chan if plan["mode"] == "chan" else check_rogue)(sim, plan, hist, reason)


def check_chan(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    cut = any(r["kind"] == "reset" for r in H.kind("fault"))
    late = any(f["kind"] in ("stop", "partition") for f in plan["faults"])
    fin = H.kind("finish")[0]["i"]
    over = (H.kind("closing_all") or [{"i": fin}])[0]["i"]
    for r in H.kind("chan_failed"):
        if not cut:
            out.append(Violation("not connected", f"connection {r['tag']}: {r['et']} {r['em']}"))
    if sim.k.counters.get("send blocked") or plan["knobs"].get("sndbuf"):
        sim.probe("channel: throttled")
    for tag, c in plan["conns"].items():
        sent = {(r["s"], r["q"]): r for r in H.kind("csent") if r["tag"] == tag}
        called = {(r["s"], r["q"]): r for r in H.kind("csend") if r["tag"] == tag}
        closing = [r for r in H.kind("closing") if r["tag"] == tag]
        broken = cut or bool(closing)
        got = {}
        for r in H.kind("crecv"):
            if r["tag"] != tag:
                continue
            if not r["ok"]:
                out.append(Violation("corrupted", f"side {r['side']} of connection {tag} received {r['em']} as message "
                                     f"{r['q']} of sender {r['s']}"))
                continue
            x = (r["s"], r["q"])
            if x in got:
                out.append(Violation("twice", f"message {x} was received twice"))
            elif x not in called:
                out.append(Violation("from nowhere", f"message {x} was received before it was sent"))
            got[x] = r
        for s in c["senders"]:
            qs = [q for q in range(len(s["msgs"])) if (s["s"], q) in got]
            if c["receivers"] == 1 and [got[s["s"], q]["i"] for q in qs] != sorted(got[s["s"], q]["i"] for q in qs):
                out.append(Violation("reordered", f"messages of sender {s['s']} were received out of order"))
            for q in range(len(s["msgs"])):
                r = sent.get((s["s"], q))
                if (s["s"], q) not in called:
                    continue
                if r is None or r["i"] > over:
                    if not broken:
                        out.append(Violation("stuck", f"sending message {q} of sender {s['s']} did not end"))
                elif r["st"] == "err":
                    if not broken:
                        out.append(Violation("send failed", f"message {q} of sender {s['s']}: {r['et']} {r['em']}"))
                elif r["st"] == "ok" and not broken and (s["s"], q) not in got:
                    out.append(Violation("lost", f"message {q} of sender {s['s']} was sent, but never received"))
            # what arrives is what was sent first
            if broken and c["receivers"] == 1 and "cancel" not in s and qs and qs != list(range(len(qs))):
                out.append(Violation("gap", f"of sender {s['s']} messages {qs} arrived"))
        if got:
            sim.probe("channel: intact", len(got))
            if len(c["senders"]) > 1:
                sim.probe("channel: sent concurrently", len(got))
        if broken and len(got) < len(called):
            sim.probe("channel: cut")
        for r in H.kind("crecv_end"):
            if r["tag"] == tag:
                if not any(x in r["mro"] for x in LOST):
                    out.append(Violation("receive failed", f"receiving on connection {tag} ended with {r['et']} {r['em']}"))
                elif r["i"] < over and not broken:
                    out.append(Violation("receive failed", f"receiving on connection {tag} ended with {r['et']} {r['em']} "
                                         "though nobody closed it"))
        if H.kind("finish") and (c.get("close") and closing or True):
            n = len([r for r in H.kind("crecv_end") if r["tag"] == tag])
            up = len([r for r in H.kind("csenders_done") if r["tag"] == tag])
            if up == 2 and n < 2 * c["receivers"] and not late:
                out.append(Violation("deaf", f"connection {tag} was closed, but {2 * c['receivers'] - n} receivers still wait"))
    return out


def check_rogue(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    resets = [r for r in H.kind("fault") if r["kind"] == "reset"]
    slow = 5 * SEC if any(r["kind"] in ("stop", "partition") for r in H.kind("fault")) else 0
    bound = BOUND + slow
    fin = (H.kind("finish") or [{"i": 1 << 62, "t": 1 << 62}])[0]
    final = (H.kind("rs_final") or [fin])[0]
    nb = len(plan["rogues"])

    # ---- those who behave
    answered, requested = {}, {}
    done = {r["rid"]: r for r in H.kind("rs_done")}
    for r in H.kind("rs_answer"):
        answered[r["rid"]] = r
    for r in H.kind("rs_request"):
        if r["rid"] in requested:
            out.append(Violation("ran twice", f"call {r['rid']} arrived twice"))
        requested[r["rid"]] = r
    disrupt = {}
    for r in H.kind("rs_answer"):
        if r["act"] not in ("ok", "silent"):
            disrupt.setdefault(r["c"], r)
    acts = {o["rid"]: o["act"] for o in plan["ops"] if o["k"] == "rcall"}
    for o in plan["ops"]:
        cl, r = H.calls.get(o["rid"]), H.rets.get(o["rid"])
        if cl is None:
            continue
        d = f"{o['k']} {o['rid']}"
        if r is None:
            out.append(Violation("hangs", f"{d} never ended", op=o["k"]))
            continue
        if r["st"] == "ok" and isinstance(r["v"], dict) and "bad" in r["v"]:
            out.append(Violation("corrupted", f"{d} gave {r['v']['bad']}", op=o["k"]))
            continue
        if o["k"] != "rcall":
            n = len(H.starts.get(o["rid"], []))
            if n > 1:
                out.append(Violation("ran twice", f"{d} ran {n} times", op=o["k"]))
            if r["st"] == "ok":
                if n == 0 and not (o["k"] == "tell" and resets):
                    out.append(Violation("lost", f"{d} ended well but its body never ran", op=o["k"]))
                sim.probe("healthy beside rogues")
            elif not (resets and any(x in r["mro"] for x in LOST)):
                out.append(Violation("harmed", f"{d}, on a healthy connection, gave {r.get('et')} {r.get('em')}", op=o["k"]))
            continue
        q, a = requested.get(o["rid"]), answered.get(o["rid"])
        k = o["act"]["k"]
        if r["st"] == "ok":
            if a is None or k not in ("ok", "okbad", "twice"):
                out.append(Violation("from nowhere", f"{d}, never answered ({k}), gave {r['v']}"))
            sim.probe("rogue server: right answer")
            if a is not None and any(x["c"] < a["c"] for x in disrupt.values()):
                sim.probe("reconnected")
            continue
        if k in ("bad", "okbad"):
            sim.probe("rogue server: malformed")
        if any(r["i"] > x["i"] for x in resets):
            continue
        if a is not None and k in ("ok", "okbad", "twice"):
            first = disrupt.get(a["c"])
            # a connection closed by its server may lose what is on its way
            rst = any(x["c"] == a["c"] and a["t"] - SEC < x["t"] < a["t"] + SEC and acts[x["rid"]].get("end")
                      for x in answered.values())
            if not rst and (first is None or first["i"] >= a["i"]) and a["rid"] in done and done[a["rid"]]["t"] + SEC < final["t"]:
                out.append(Violation("lost answer", f"{d} was answered rightly, before anything else was wrong with its "
                                     f"connection, but gave {r['et']} {r['em']}", act=k))
        elif q is None and r["i"] < final["i"]:
            near = [x for x in disrupt.values() if x["t"] - SEC < r["t"] and cl["t"] < x["t"] + bound]
            if not near:
                out.append(Violation("refused", f"{d} was not even sent, though no connection was in disorder: {r['et']} {r['em']}"))
    # those who got malformed answers hang up, which ends their calls
    eof = {r["c"]: r for r in H.kind("rs_eof")}
    for c, x in disrupt.items():
        act = acts[x["rid"]]
        if act["k"] in ("bad", "okbad") and act["o"] in SURE and x["t"] + bound < min(final["t"], fin["t"]):
            e = eof.get(c)
            if e is None or e["t"] > x["t"] + bound:
                out.append(Violation("not closed", f"a client that was sent malformed bytes ({act['o']}) did not close its "
                                     f"connection within {bound / SEC:.0f} s", who="client"))
            for rid, q in requested.items():
                if q["c"] == c and q["i"] < x["i"]:
                    r = H.rets.get(rid)
                    if r is None or r["t"] > x["t"] + bound:
                        out.append(Violation("hangs", f"call {rid} hangs on a connection that carried malformed bytes", op="rcall"))
    for rid, q in requested.items():  # those over a closed connection
        a = answered.get(rid)
        if a and a["act"] in ("end", "trunc"):
            r = H.rets.get(rid)
            if (r is None or r["t"] > a["t"] + bound) and a["t"] + bound < fin["t"]:
                out.append(Violation("hangs", f"call {rid} hangs on a closed connection", op="rcall"))

    # ---- rogue clients
    for g in plan["rogues"]:
        n = g["n"]
        ev = [r for r in hist if r["k"].startswith("rogue_") and r.get("n") == n]
        up = next((r for r in ev if r["k"] == "rogue_up"), None)
        if up is None:
            continue
        sent = {r["j"]: r for r in ev if r["k"] == "rogue_sent"}
        end = next((r for r in ev if r["k"] == "rogue_end"), None)
        eof = next((r for r in ev if r["k"] == "rogue_eof"), None)
        bad, odd = None, False
        intr = any(x["i"] > up["i"] for x in resets)
        for j, f in enumerate(g["frames"]):
            if f["k"] == "call":
                m = len(H.starts.get(f["rid"], []))
                if m > 1:
                    out.append(Violation("ran twice", f"message {f['rid']} of rogue {n} ran {m} times"))
                if "cut" in f:
                    sim.probe("truncated")
                    if m:
                        out.append(Violation("partial message", f"a truncated message ({f['rid']} of rogue {n}) was executed"))
                elif bad is not None:
                    if m:
                        out.append(Violation("after malformed", f"message {f['rid']} of rogue {n} was executed although malformed "
                                             f"bytes ({bad[1]['o']}) preceded it"))
                elif j in sent and not odd and not intr and not m and (g["end"] not in ("abort", "close") or sent[j]["t"] + SEC < (end or fin)["t"]) \
                        and sent[j]["t"] + bound < fin["t"]:
                    out.append(Violation("lost", f"message {f['rid']} of rogue {n}, complete and before anything wrong, was "
                                         "never executed", op="rogue"))
                else:
                    if len(g["frames"]) > j + 1 and g["frames"][-1]["k"] == "bad" and m:
                        sim.probe("valid before malformed")
            elif f["k"] == "odd":
                if f["o"] not in ODD_OPEN:
                    odd = True
            elif bad is None:
                bad = (j, f)
        if bad and bad[1]["o"] in SURE and bad[0] in sent and not intr:
            t = sent[bad[0]]["t"]
            if t + bound < fin["t"] and (end is None or end["how"] in ("stay", "half") or end["t"] > t + bound):
                if eof is None or eof["t"] > t + bound:
                    out.append(Violation("not closed", f"the server did not close the connection of rogue {n}, which had sent "
                                         f"malformed bytes ({bad[1]['o']}), within {bound / SEC:.0f} s", who="server"))
                else:
                    sim.probe("malformed: closed")
        if end and end["how"] == "half" and end["t"] + bound < fin["t"] and (eof is None or eof["t"] > end["t"] + bound):
            out.append(Violation("not closed", f"the server did not close the connection of rogue {n} after its end of stream", who="server"))
        if end and end["how"] in ("close", "abort") and end["t"] + bound < fin["t"]:
            p = sim.procs[f"rogue{n}"]
            for a, b in sim.k.net.conns:
                if a.p is p and not b.closed and not b.p.dead:
                    out.append(Violation("not closed", f"the server still holds the connection rogue {n} closed", who="leak"))
    for p in H.kind("probe_actor"):
        if p["st"] != "ok":
            out.append(Violation("harmed", f"actor {p['uid']} does not accept the next call: {p['em']}", op="probe"))
    for r in hist:
        if r["k"] == "ret" and r["op"] == "probe" and r["st"] != "ok":
            out.append(Violation("harmed", f"{r['addr']} serves no new connection: {r.get('et')} {r.get('em')}", op="probe"))
    for i, r in enumerate(H.kind("proc_exit")):
        if r["cause"] not in ("exit", "pdeathsig") and r["i"] < fin["i"] and r["role"] not in ():
            out.append(Violation("harmed", f"process {r['role']} died: {r['cause']} {r['code']}", op="exit"))
    return out


RULE = ("every message received equals the one sent, once, in its sender's order, all of them unless the connection was cut; "
        "calls beside rogue connections are unharmed, no malformed or truncated message is executed or answered to a caller, "
        "connections that carried malformed bytes are closed, servers go on serving")
REAL = "serialization, channels (TCP, UNIX, in-process), servers, clients, pools; all of xoscar"
ASSUME = ["payload buffers are not modified until their message has been answered",
          "malformed bytes are ones that cannot be decoded (the protocol carries no checksum)"]
