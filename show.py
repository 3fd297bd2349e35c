#!/usr/bin/env python3
"""show.py REPLAY: the minimised plan and its history, readable."""
import json
import sys

d = json.load(open(sys.argv[1]))
p = d["plan"]
print({k: v for k, v in p.items() if k not in ("ops", "faults", "knobs")})
print("knobs", p.get("knobs"))
for o in p.get("ops") or []:
    print("  op", o)
for f in p.get("faults") or []:
    print("  fault", f)
print(d["violation"])
lim = int(sys.argv[2]) if len(sys.argv) > 2 else 120
for r in (d.get("history") or [])[:lim]:
    r = dict(r)
    t, k, i = r.pop("t"), r.pop("k"), r.pop("i")
    print(f"{i:4} {t / 1e9:12.6f} {k:12}", {a: b for a, b in r.items() if b is not None})
