"""P12: copies of buffers and files arrive complete and unmixed."""
from ..kernel import MS
from ..world import Violation
from . import common as C

RUNS = {"quick": 700, "thorough": 20000}
IMAGES = 20
NEED = {"copied": 500, "copied by several blocks": 200, "file copied": 100, "copy failed": 50,
        "copy failed by the target's disk": 20, "copy cancelled": 10, "target was gone": 10,
        "overlapping copies": 100, "SIGKILL": 10, "connection reset": 10, "within one process": 20}


def gen_copy(rng, holders, nc, heavy):
    block = rng.choice([None, None, 1, 2, 7, 16, 64, 1000, 1024, 4096, 20000])
    b = block or 4096
    files = rng.random() < 0.4
    o = {"k": "copy", "a": rng.choice(holders), "c": rng.randrange(nc), "bufs": []}
    left = min(24000 if heavy else 90000, b * 60)
    for _ in range(rng.choice([1, 1, 2, 3, 5, 9])):
        r = rng.random()
        if r < 0.15:
            n = 0
        elif r < 0.55:
            n = max(0, b * rng.choice([0, 1, 1, 2, 3]) + rng.choice([-1, 0, 0, 1]))
        elif r < 0.8:
            n = rng.randrange(1, 2 * b + 2)
        else:
            n = rng.choice([1, 2, 3, 100, 5000])
        n = min(n, left)
        left -= n
        s = {"n": n, "seed": rng.randrange(1 << 30)}
        if files:
            s["k"] = "file"
            if rng.random() < 0.4:
                s["rchop"] = [rng.randrange(1, 5000) for _ in range(3)]
            if rng.random() < 0.15:
                s["raw"] = True
                s["chop"] = [rng.randrange(1, 5000) for _ in range(3)]
        else:
            s["k"] = rng.choice(["np", "np", "mv"])
            s["src"] = rng.choice(["np", "rw", "strided"] + (["bytes"] * 2 if s["k"] == "mv" else []))
            if s["k"] == "np" and rng.random() < 0.2:
                s["dt"] = rng.choice(["i2", "i8", "u4"])
        o["bufs"].append(s)
    if block:
        o["block"] = block
    if files and rng.random() < 0.25:
        s = rng.choice(o["bufs"])
        if rng.random() < 0.5:
            s["cap"] = rng.choice([0, s["n"] // 2, max(0, s["n"] - 1)])
        else:
            s["err_at"] = rng.choice([0, 1, 2, 5])
    elif files and rng.random() < 0.08:
        rng.choice(o["bufs"])["rerr_at"] = rng.choice([0, 1, 2])
    elif rng.random() < 0.06:
        o["drop"] = rng.randrange(len(o["bufs"]))
    if rng.random() < 0.08:
        o["cancel"] = rng.choice([0, 0.3, 2, 10])
    return o


def gen(rng, tier, i):
    plan = C.gen_topology(rng, nact=(1, 2), ncall=(1, 3), clients=False)
    holders = []
    for _ in range(rng.randint(1, 3)):
        holders.append(len(plan["actors"]))
        plan["actors"].append({"pool": rng.randrange(len(plan["pools"])), "slot": rng.randrange(4), "cls": "Holder"})
    plan["knobs"] = C.swarm(rng)
    heavy = "mss" in plan["knobs"] or "sndbuf" in plan["knobs"]
    nc = len(plan["callers"])
    span = rng.choice([0, 10, 60])
    ops = []
    for _ in range(rng.randint(1, 8)):
        o = gen_copy(rng, holders, nc, heavy)
        if rng.random() < 0.5:
            o["at"] = round(rng.random() * span, 2)
        ops.append(o)
    for _ in range(rng.randint(0, 10)):
        o = {"k": "send", "a": rng.randrange(holders[0]), "m": rng.choice(["do", "free", "sdo"]), "ms": rng.choice([0, 1, 5]),
             "pay": C.gen_pay(rng, False), "c": rng.randrange(nc)}
        if rng.random() < 0.6:
            o["at"] = round(rng.random() * (span + 20), 2)
        ops.append(o)
    C.number(ops)
    plan["ops"] = ops
    plan["faults"] = []
    if rng.random() < 0.4:
        plan["faults"] = C.fault_calls(rng, plan, rng.randint(1, 3))
        for f in plan["faults"]:
            if f["kind"] in ("kill", "reset") and rng.random() < 0.6:
                f["trigger"] = {"on": {"k": "copying"}, "nth": rng.randint(1, 3),
                                "delay_us": rng.choice([0, 30, 200, 1000, 5000, 20000])}
    plan["deadline"] = 40
    plan["settle"] = 2.0
    return plan


def setup(sim, plan):
    C.setup_calls(sim, plan)


def check(sim, plan, hist, reason):
    H = C.Hist(hist)
    out = C.setup_violations(H, reason)
    if out:
        return out
    faulty = any(r["kind"] in ("kill", "reset") for r in H.kind("fault"))
    slow = any(r["kind"] in ("partition", "stop", "clock") for r in H.kind("fault"))
    done = {r["rid"]: r for r in H.kind("copied")}
    began = {r["rid"]: r for r in H.kind("copying")}
    content = {r["rid"]: r["r"] for r in H.kind("content")}
    exits = {r["pid"] for r in H.kind("proc_exit")}
    for o in C.leaf_ops(plan["ops"]):
        rid = o["rid"]
        cl = H.calls.get(rid)
        if cl is None:
            continue
        r = H.rets.get(rid)
        if r is None:
            if cl["pid"] not in exits:
                out.append(Violation("hang", f"{o['k']} {rid} never ended", op=o["k"]))
            continue
        if o["k"] == "send":
            if r["st"] == "ok" and isinstance(r["v"], dict):
                out.append(Violation("damaged", f"call {rid}: {r['v']}"))
            elif r["st"] != "ok" and not faulty:
                out.append(Violation("failed", f"call {rid} gave {r['st']} {r.get('et')} {r.get('em')}", op="send"))
            continue
        d = done.get(rid)
        files = o["bufs"][0]["k"] == "file"
        c = content.get(rid)
        what = f"copy {rid} ({'files' if files else 'buffers'} of {[s['n'] for s in o['bufs']]}, block {o.get('block')})"
        if d is None:
            if not faulty and "cancel" not in o:
                out.append(Violation("failed", f"{what}: preparation gave {r['st']} {r.get('et')} {r.get('em')}", op="prep"))
            continue
        if c and any(w == "outside" for w, _ in c):
            out.append(Violation("outside", f"{what} modified bytes outside its targets: {c}"))
            continue
        if c and any(w.endswith("not a prefix") for w, _ in c):
            out.append(Violation("mixed", f"{what} left wrong bytes: {c} (copy: {d['st']})", ok=d["st"] == "ok"))
            continue
        if d["st"] == "ok":
            sim.probe("copied")
            if files:
                sim.probe("file copied")
            if sum(s["n"] for s in o["bufs"]) > (o.get("block") or 1 << 60):
                sim.probe("copied by several blocks")
            if any(x["i"] < d["i"] and began[y]["i"] > began[rid]["i"] for y, x in done.items() if y != rid):
                sim.probe("overlapping copies")
            a, cc = plan["actors"][o["a"]], plan["callers"][o["c"]]
            if a["pool"] == cc["pool"] and cc["at"] == "actor" and a["slot"] == cc["slot"]:
                sim.probe("within one process")
            if c is None:
                if not faulty and "cancel" not in o:
                    out.append(Violation("failed", f"{what}: inspection gave {r.get('et')} {r.get('em')}", op="peek"))
                continue
            for i, ((w, hurt), s) in enumerate(zip(c, o["bufs"])):
                if o.get("drop") == i and s["n"]:
                    out.append(Violation("success without target", f"{what} succeeded, its target {i} was gone"))
                elif o.get("drop") == i:
                    pass
                elif w != "ok":
                    out.append(Violation("incomplete", f"{what} succeeded, target {i} holds {w} ({hurt})",
                                         files=files, hurt=hurt))
                    break
            continue
        hurts = [h for _, h in c or () if h]
        excused = (faulty or hurts or "drop" in o or "cancel" in o or
                   any(k in s for s in o["bufs"] for k in ("cap", "err_at", "rerr_at")))
        if not excused:
            out.append(Violation("failed", f"{what} gave {d['st']} {d['em']}", op="copy", et=d["st"]))
            continue
        sim.probe("copy failed")
        if hurts:
            sim.probe("copy failed by the target's disk")
        if rid in H.cancels:
            sim.probe("copy cancelled")
        if "drop" in o:
            sim.probe("target was gone")
    return out


RULE = ("when copy_to returns, every target holds the source bytes and the guard zones around it are intact; without a "
        "fault, cancellation, missing target or disk error it returns; a failed copy leaves a prefix in files and intact "
        "guard zones; calls interleaved with copies give their own results")
REAL = "copy_to, buffer and file references, handlers in the pools, AioFileObject, message serialization and transport"
ASSUME = ["the files behind AioFileObject are simulated (short reads, short raw writes, full disk, I/O errors)",
          "sources and targets have equal sizes and types, targets of different copies do not overlap"]
