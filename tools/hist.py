#!/opt/venv/bin/python
"""hist.py REPLAY-OR-PLAN [nlines]: run a plan again and print its history (needs PYTHONHASHSEED=0)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
from sim import osl, runner

d = json.load(open(sys.argv[1]))
plan = d.get("plan", d)
plan["keep_history"] = True
runner.boot(14)
res = runner.execute(plan)
for r in (res.get("history") or [])[:int(sys.argv[2]) if len(sys.argv) > 2 else 400]:
    t, k, i = r.pop("t"), r.pop("k"), r.pop("i")
    print(f"{i:4} {t / 1e9:12.6f} {k:12}", {a: b for a, b in r.items() if b is not None})
print(res.get("violations"), res.get("harness"), res.get("reason"))
runner.images.cleanup()
sys.stdout.flush()
osl.real.exit(0)
