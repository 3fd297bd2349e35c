#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/props/TABLE."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
table = [l.split() for l in open(os.path.join(HERE, "sim/props/TABLE")) if l.strip()]
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "P22": "serialize/deserialize is a pure function of its argument: no schedule, clock, I/O or second "
           "party for a simulator to vary. (Damage in transit is decided by P01 and P19.)",
    "P23": "the collective library (xoscar_pygloo, C++/gloo, and nccl) is not built here and cannot be "
           "without network; its communication runs in native threads outside any seam a simulator could own.",
    "P24": "marker evaluation is a pure function, and the installation step runs the external tool uv, "
           "which is absent; there is no concurrency, time or fault for the property to depend on.",
}
NOTE = ("Seeded search over simulated executions of the real xoscar code (pools, processes, sockets, "
        "clocks, faults all under one deterministic scheduler). Sound for what was explored; says "
        "nothing about schedules not drawn. Trusts the simulated kernel (sockets, signals, processes, "
        "shared memory) to behave like Linux and treats code between two event-loop callbacks as atomic.")
have = {p for p, _ in table}
checks = []
for p, m in table:
    checks.append({
        "property": p,
        "quick_cmd": f"/opt/venv/bin/python check.py {p} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
        "level": "exploration",
        "level_note": NOTE,
    })
na = []
for p in props:
    if p["id"] not in have:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -m sim.build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every seam is a name the code looks up at run time (sockets, event loop, "
             "threads, clocks, psutil, subprocess, shared memory), replaced inside the harness process.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
