"""Search: plans -> simulated runs over a pool of zygote workers, shrinking, replay, evidence."""
import hashlib
import importlib
import json
import os
import random
import select
import signal
import socket
import struct
import sys
import time
from collections import Counter

from . import build, images, osl, world

real = osl.real
ENV = dict(os.environ)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALL = 90  # seconds of real time one simulated run may take

_recv_raw = socket.socket


def _send(fd, b):
    b = struct.pack("<I", len(b)) + b
    mv = memoryview(b)
    while mv:
        n = os.write(fd, mv)
        mv = mv[n:]


def _read_exact(fd, n):
    out = b""
    while len(out) < n:
        d = os.read(fd, n - len(out))
        if not d:
            return None
        out += d
    return out


def _recv(fd):
    h = _read_exact(fd, 4)
    if h is None:
        return None
    return _read_exact(fd, struct.unpack("<I", h)[0])


def _run_child(plan, wall):
    """Fork, run one plan, return the result dict."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            if not ENV.get("XSIM_STDERR") and not plan.get("knobs", {}).get("verbose"):
                dn = os.open("/dev/null", os.O_WRONLY)
                os.dup2(dn, 1)
                if not plan.get("stderr"):
                    os.dup2(dn, 2)
            world.run_plan(plan, lambda b: _write_all(w, b), wall)
        except BaseException:
            import traceback
            _write_all(w, json.dumps({"harness": ["child: " + traceback.format_exc()]}).encode())
        real.exit(96)
    os.close(w)
    buf = b""
    end = real.monotonic() + wall + 5
    killed = False
    while True:
        left = end - real.monotonic()
        rd, _, _ = select.select([r], [], [], max(0, left))
        if not rd:
            real.kill(pid, signal.SIGKILL)
            killed = True
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if killed:
        return {"violations": [], "harness": [], "stuck": True, "reason": "wall"}
    try:
        return json.loads(buf)
    except ValueError:
        return {"violations": [], "harness": [f"run ended with status {st}, no result"]}


def _write_all(fd, b):
    mv = memoryview(b)
    while mv:
        mv = mv[os.write(fd, mv):]


class Pool:
    """Workers forked from this process after the images were loaded."""

    def __init__(self, n):
        self.w = []
        for _ in range(n):
            a, b = socket.socketpair()
            pid = os.fork()
            if pid == 0:
                a.close()
                for _, s in self.w:
                    s.close()
                fd = b.fileno()
                try:
                    while True:
                        m = _recv(fd)
                        if m is None:
                            break
                        plan, wall = json.loads(m)
                        _send(fd, json.dumps(_run_child(plan, wall)).encode())
                finally:
                    real.exit(0)
            b.close()
            self.w.append((pid, a))

    def map(self, plans, deadline=None, stop=None):
        """Yields (index, plan, result) as they come; plans is an iterator."""
        it = iter(plans)
        idle = list(range(len(self.w)))
        busy = {}
        n = 0
        more = True
        while True:
            while idle and more:
                if (deadline and real.monotonic() > deadline) or (stop and stop()):
                    more = False
                    break
                try:
                    plan = next(it)
                except StopIteration:
                    more = False
                    break
                i = idle.pop(0)
                _send(self.w[i][1].fileno(), json.dumps([plan, plan.get("wall", WALL)]).encode())
                busy[i] = (n, plan)
                n += 1
            if not busy:
                return
            fds = {self.w[i][1].fileno(): i for i in busy}
            rd, _, _ = select.select(list(fds), [], [])
            for fd in rd:
                i = fds[fd]
                m = _recv(fd)
                idx, plan = busy.pop(i)
                idle.append(i)
                if m is None:
                    raise RuntimeError("worker died")
                yield idx, plan, json.loads(m)

    def close(self):
        for pid, s in self.w:
            s.close()
        for pid, s in self.w:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass


def boot(nimages):
    ext = build.ensure_built()  # runs compilers: before processes are simulated
    osl.install()
    images.install(ext)
    osl.preload(nimages)
    import gc
    gc.collect()
    gc.freeze()


def classes(res):
    return {v["cls"] for v in res.get("violations", [])}


def run_all(pool, plans, deadline=None):
    out = {}
    for i, p, r in pool.map(plans, deadline):
        out[i] = (p, r)
    return out


# ---------------------------------------------------------------------- shrinking
def shrink(pool, plan, cls, budget, scen):
    """Delta-debug ops, faults and knobs while some run still shows violation class cls."""
    end = real.monotonic() + budget
    best = plan
    tries = 0

    def attempt(cands):
        """First candidate (with one of a few schedule seeds) that still fails."""
        nonlocal tries
        jobs = []
        for ci, c in enumerate(cands):
            for s in range(2):
                c2 = json.loads(json.dumps(c))
                if s:
                    c2["seed"] = (c2["seed"] * 31 + s) % (1 << 40)
                jobs.append((ci, c2))
        hit = []
        for i, p, r in pool.map([j[1] for j in jobs], end, stop=lambda: bool(hit)):
            tries += 1
            if cls in classes(r) and not r.get("harness"):
                hit.append((i, p))
        if hit:
            return min(hit)[1]
        return None

    changed = True
    while changed and real.monotonic() < end:
        changed = False
        for key in ("faults", "ops"):
            lst = best.get(key) or []
            size = max(1, len(lst) // 2)
            while lst and size >= 1 and real.monotonic() < end:
                cands = []
                for a in range(0, len(lst), size):
                    c = dict(best)
                    c[key] = lst[:a] + lst[a + size:]
                    cands.append(c)
                got = attempt(cands)
                if got is not None:
                    best = got
                    lst = best[key]
                    size = max(1, min(size, len(lst) // 2))
                    changed = True
                elif size == 1:
                    break
                else:
                    size //= 2
        cands = []
        for kn in sorted(best.get("knobs", {})):
            if kn in ("max_time", "max_events"):
                continue
            c = dict(best)
            c["knobs"] = {a: b for a, b in best["knobs"].items() if a != kn}
            cands.append(c)
        if hasattr(scen, "simplify"):
            cands += list(scen.simplify(best))
        for c in cands:
            if real.monotonic() > end:
                break
            got = attempt([c])
            if got is not None:
                best = got
                changed = True
                break
    return best, tries


# ------------------------------------------------------------------------- check
def load_known(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [x for x in d.get("findings", []) if x["property"] == prop]


def _outdir():
    d = os.path.join(VERIF, "out")
    if not os.path.isdir(d):
        osl._fsreal["makedirs"](d, exist_ok=True)
    return d


def plan_of(scen, prop, seed, i, tier):
    s = (seed * 1_000_003 + i * 7919 + int(hashlib.sha256(prop.encode()).hexdigest()[:6], 16)) % (1 << 40)
    rng = random.Random(s)
    plan = scen.gen(rng, tier, i)
    plan.setdefault("scenario", scen.__name__.rsplit(".", 1)[1])
    plan["seed"] = s
    plan["idx"] = i
    plan["prop"] = prop
    return plan


def execute(plan, keep=True):
    p = dict(plan)
    if keep:
        p["keep_history"] = True
    return _run_child(p, WALL)


def write_replay(prop, plan, res, v, extra=None):
    d = _outdir()
    name = hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, f"replay-{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "plan": plan, "violation": v, "hash": res.get("hash"),
                   "events": res.get("events"), "history": res.get("history"),
                   **(extra or {})}, f, indent=1, default=repr)
    return path


def replay(path):
    with open(path) as f:
        d = json.load(f)
    res = execute(d["plan"])
    same = res.get("hash") == d["hash"]
    hit = d["violation"]["cls"] in classes(res) or (res.get("stuck") and d["violation"]["cls"] == "stuck")
    print(f"replay: hash {'identical' if same else 'DIFFERENT'} ({res.get('hash')}), "
          f"violation {'reproduced' if hit else 'NOT reproduced'}")
    for v in res.get("violations", []):
        print("  ", v)
    for h in res.get("harness", []):
        print("  harness:", h)
    if hit:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0


def main(prop, modname, tier, seed, argv=()):
    scen = importlib.import_module("sim.props." + modname)
    t0 = real.monotonic()
    nwork = int(ENV.get("XSIM_WORKERS", "0") or 0) or len(os.sched_getaffinity(0))
    boot(getattr(scen, "IMAGES", 10))
    nruns = scen.RUNS[tier]
    for a in argv:
        if a.startswith("--runs="):
            nruns = int(a[7:])
    cap = {"quick": 150, "thorough": 1500}[tier]
    pool = Pool(nwork)
    known = load_known(prop)
    agg = Counter()
    probes = Counter()
    reasons = Counter()
    shapes, hashes = set(), set()
    sim_s = 0.0
    events = 0
    bad, kn_hits, harness, stuck, samples = [], {}, [], [], []
    nrun = 0
    t1 = real.monotonic()
    want = int(ENV.get("XSIM_ALL", "0") or 0)

    def gen():
        for i in range(nruns):
            yield plan_of(scen, prop, seed, i, tier)

    for i, plan, res in pool.map(gen(), t1 + cap, stop=lambda: bool(bad) and not want):
        nrun += 1
        if res.get("harness"):
            harness.append((i, plan, res["harness"]))
        if res.get("stuck"):
            stuck.append((i, plan))
            continue
        agg.update(res.get("counters", {}))
        probes.update(res.get("probes", {}))
        reasons[res.get("reason")] += 1
        sim_s += res.get("sim_s", 0)
        events += res.get("events", 0)
        if res.get("shape"):
            shapes.add(res["shape"])
        hashes.add(res.get("hash"))
        if len(samples) < 2:
            samples.append({"plan": plan, "reason": res.get("reason"), "events": res.get("events"),
                            "hash": res.get("hash")})
        for v in res.get("violations", []):
            for kf in known:
                if kf["cls"] == v["cls"] and kf.get("sig") == v.get("sig"):
                    kn_hits.setdefault(kf["id"], (kf, i))
                    break
            else:
                bad.append((i, plan, v, res))
    t2 = real.monotonic()
    code = 0
    # a run that never came back: confirm it is the code under test, deterministically
    if not bad:
        for i, plan in stuck[:2]:
            r2 = _run_child(plan, WALL * 2)
            if r2.get("stuck"):
                bad.append((i, plan, {"cls": "stuck", "msg": "a simulated process loops without "
                                      "ever yielding"}, r2))
            else:
                harness.append((i, plan, ["run exceeded the wall limit once"]))
    if want and bad:
        c = Counter(v["cls"] for _, _, v, _ in bad)
        print("classes:", dict(c))
        seen = set()
        for i, plan, v, res in bad:
            if v["cls"] not in seen:
                seen.add(v["cls"])
                print("  e.g. run", i, v)
                if want > 1:
                    if want > 2:
                        plan, _ = shrink(pool, plan, v["cls"], float(ENV.get("XSIM_SHRINK", "40")), scen)
                    r = execute(plan)
                    vs = [x for x in r.get("violations", []) if x["cls"] == v["cls"]] or [v]
                    print("      ", write_replay(prop, plan, r, vs[0]))
    replay_path = None
    if bad:
        bad.sort(key=lambda b: b[0])
        i, plan, v, res = bad[0]
        small, tries = plan, 0
        if v["cls"] != "stuck":
            try:
                small, tries = shrink(pool, plan, v["cls"],
                                      float(ENV.get("XSIM_SHRINK", "40")), scen)
            except Exception as e:  # the unshrunk plan is just as valid
                print("shrinking failed:", repr(e))
            full = execute(small)
            again = execute(small)
            vs = [x for x in full.get("violations", []) if x["cls"] == v["cls"]]
            if not vs or full.get("hash") != again.get("hash"):
                print("note: shrunk plan did not reproduce exactly; keeping the original")
                small = plan
                full = execute(small)
                vs = [x for x in full.get("violations", []) if x["cls"] == v["cls"]] or [v]
            v = vs[0]
        else:
            full = res
        replay_path = write_replay(prop, small, full, v, {"original_run": i, "shrink_runs": tries})
        print(f"run {i}: {v['cls']}: {v['msg']}")
        print(f"  shrunk to {len(small.get('ops') or [])} ops, {len(small.get('faults') or [])} faults "
              f"({tries} shrink runs), seed {small['seed']}")
        print(f"VIOLATION property={prop} replay={replay_path}")
        code = 1
    elif harness:
        code = 3
    for kid, (kf, i) in sorted(kn_hits.items()):
        print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    # findings the search did not meet this time: show the recorded history still fails
    for kf in known:
        if kf["id"] not in kn_hits and kf.get("plan") and code == 0:
            r = execute(kf["plan"], False)
            if any(v["cls"] == kf["cls"] and v.get("sig") == kf.get("sig") for v in r.get("violations", [])):
                print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    for i, plan, h in harness[:3]:
        print(f"HARNESS-ERROR run {i} seed {plan['seed']}: {h[0][-1500:]}")
    if harness and ENV.get("XSIM_KEEP"):
        with open(ENV["XSIM_KEEP"], "w") as f:
            json.dump({"property": prop, "plan": harness[0][1], "hash": None,
                       "violation": {"cls": "-"}}, f)
    pool.close()
    need = getattr(scen, "NEED", {})
    wall = t2 - t1
    faults = {k: v for k, v in sorted(agg.items())}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": nrun,
            "distinct_nontrivial": len(shapes),
            "rule": getattr(scen, "RULE", "one seed = one plan (operations, faults, knobs) and one "
                            "schedule; distinct = different order-type of the recorded history "
                            "(sequence of event kinds and operations)"),
            "samples": samples,
            "distinct_schedules": len(hashes),
            "runs_per_hour": int(nrun / wall * 3600) if wall > 0 else 0,
            "simulated_seconds": round(sim_s, 3),
            "scheduling_events": events,
            "faults_and_environment": faults,
            "probes": dict(sorted(probes.items())),
            "run_endings": dict(reasons),
            "known_findings_met": sorted(kn_hits),
            "components_real": getattr(scen, "REAL", REAL),
            "components_simulated": STUB,
        },
        "assumptions": ASSUME + getattr(scen, "ASSUME", []),
        "wall_s": round(real.monotonic() - t0, 2),
        "violations": len(bad),
    }
    missing = [k for k, n in need.items() if probes.get(k, 0) + agg.get(k, 0) < n and nrun >= nruns]
    if missing:
        ev["coverage"]["probes_not_reached"] = missing
        print("note: probes not reached:", ", ".join(missing))
    evd = os.path.join(VERIF, "evidence")
    osl._fsreal["makedirs"](evd, exist_ok=True)
    with open(os.path.join(evd, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    images.cleanup()
    print(f"{prop} {tier}: {nrun} runs, {len(shapes)} distinct order-types, {sim_s:.0f} simulated s, "
          f"{events} events, {wall:.1f} s; violations {len(bad)}, harness errors {len(harness)}, "
          f"known findings {len(kn_hits)}")
    return code


REAL = ["xoscar (all Python and Cython code of /repo: pools, routers, channels, servers, serialization, "
        "actors, refs, batch, api, shared-memory child start-up, main and sub pool processes)",
        "CPython asyncio selector event loop, transports, streams, tasks, locks, subprocess protocol",
        "cloudpickle, numpy, pandas"]
STUB = ["sockets (TCP and unix), selector readiness, DNS", "threads and thread pools (baton scheduler)",
        "clocks, timers, sleep", "process creation, signals, exit, psutil, PDEATHSIG",
        "POSIX shared memory", "random ids, uuid, urandom", "unix-socket file system paths"]
ASSUME = ["code between two event-loop callbacks is atomic with respect to other threads and processes",
          "the simulated sockets, signals and processes behave like Linux ones",
          "a clean run is evidence over the explored seeds, not a proof"]
