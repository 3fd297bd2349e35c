#!/opt/venv/bin/python
"""Determinism: the same plans give bit-identical runs in different processes, worker counts
and orders. selftest.py PROPERTY... [--n N]; prints the number of differing runs."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
CHILD = """
import sys, json
sys.path.insert(0, %r); sys.dont_write_bytecode = True
import importlib
prop, mod, n, w, rev = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5] == '1'
from sim import osl, runner
scen = importlib.import_module('sim.props.' + mod)
runner.boot(getattr(scen, 'IMAGES', 10))
pool = runner.Pool(w)
plans = [runner.plan_of(scen, prop, 77, i, 'quick') for i in range(n)]
if rev: plans.reverse()
for i, p, r in pool.map(plans):
    print(p['idx'], r.get('hash'), r.get('events'), r.get('nhist'), r.get('shape'), r.get('reason'))
pool.close(); runner.images.cleanup(); sys.stdout.flush(); osl.real.exit(0)
"""


def one(prop, mod, n, w, rev):
    env = dict(os.environ, PYTHONHASHSEED="0")
    out = subprocess.run([sys.executable, "-c", CHILD % HERE, prop, mod, str(n), str(w), rev],
                         env=env, stdout=subprocess.PIPE, check=True, cwd=HERE).stdout.decode()
    return {l.split()[0]: l for l in out.splitlines()}


def main():
    n = 60
    a = sys.argv[1:]
    if "--n" in a:
        n = int(a[a.index("--n") + 1])
        del a[a.index("--n"):a.index("--n") + 2]
    table = dict(l.split() for l in open(os.path.join(HERE, "sim/props/TABLE")) if l.strip())
    tot = 0
    for prop in a or sorted(table):
        x = one(prop, table[prop], n, 8, "0")
        y = one(prop, table[prop], n, 3, "1")
        d = [i for i in x if x[i] != y.get(i)]
        tot += len(d)
        print(prop, n, "runs,", len(d), "differ", d[:10])
        for i in d[:2]:
            print("   ", x[i], "|", y.get(i))
    return 1 if tot else 0


if __name__ == "__main__":
    sys.exit(main())
