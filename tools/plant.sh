#!/bin/bash
# usage: plant.sh DIR [steps]    steps: any of "demo test check" (default all)
# Confirms one planted bug (DIR holds patch.diff, demo.sh, meta.json) on a scratch copy of /repo that is bind-mounted
# over /repo in a private namespace.  The real /repo is never touched.
d=$(realpath "$1"); steps=${2:-demo test check}
prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo "$w/repo"; cp -a "$d" "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
git -C "$w/repo" checkout -q -- . 
cat > "$w/in.sh" <<X
ip link set lo up
mount --bind $w/repo /repo
cd /repo
say() { echo "[$(basename $d)] \$*"; }
case " $steps " in *" demo "*) bash /opt/vp/build.sh >$w/b0.log 2>&1; timeout 300 bash $w/demo/demo.sh >$w/d0.log 2>&1; say "demo unchanged: \$?";; esac
git apply $d/patch.diff || { say "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$w/b1.log 2>&1 || { say "BUILD FAILS"; tail -5 $w/b1.log; }
case " $steps " in *" demo "*) timeout 300 bash $w/demo/demo.sh >$w/d1.log 2>&1; say "demo patched: \$?"; tail -3 $w/d1.log;; esac
case " $steps " in *" test "*) bash /opt/vp/test.sh $w/t.json >$w/t.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$w/t.json'))
base=b['stable']
base=set(base)
passed=set(t['passed']) if isinstance(t.get('passed'),list) else None
if passed is None:
    tests=t.get('tests',t); passed={k for k,v in tests.items() if v in('passed','pass',True)}
print("[$(basename $d)] tests broken:",sorted(base-passed)[:5], len(base-passed))
P
;; esac
case " $steps " in *" check "*) cd /verif; VERIF_SEED=\${VERIF_SEED:-1} timeout 900 python3 check.py $prop --tier quick >$w/c.log 2>&1; say "check $prop: \$? \$(grep -m1 VIOLATION $w/c.log)"; grep -m1 -i "^run\|violation" $w/c.log;; esac
X
unshare -Urmn --propagation private bash "$w/in.sh"
/bin/rm -rf "$w"
