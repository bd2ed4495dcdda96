#!/bin/bash
# seed.sh NAME CHECK... : /verif/seeded/NAME/patch.diff is applied to /repo, built, the stable tests and the demo run,
# then the checks named (default: the property's), and everything is undone.
N=$1; shift; D=/verif/seeded/$N
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash $D/demo.sh >/tmp/demo.out 2>&1 || { echo "$N: DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/demo.out; exit 1; }
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.out; }
bash $D/demo.sh >/tmp/demo.out 2>&1 && echo "$N: DEMO PASSES WITH THE PATCH"
[ -n "$NOTEST" ] || bash /tmp/t.sh
C=""
for k in "$@"; do ( cd /verif; timeout 900 ./run $k > /tmp/chk.out 2>&1; r=$?; grep -q "VIOLATION property=$k" /tmp/chk.out && echo $k >> /tmp/caught.$N; echo "$N $k rc=$r: $(grep -m2 -A1 'case:' /tmp/chk.out | cut -c1-300)" ); done
git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
python3 - "$N" <<'P'
import json,sys,os
f='/verif/tools/seeded_results.json'; n=sys.argv[1]
d=json.load(open(f)) if os.path.exists(f) else {}
c='/tmp/caught.'+n
d[n]=sorted(set(open(c).read().split())) if os.path.exists(c) else ['missed']
if os.path.exists(c): os.remove(c)
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
