#!/bin/bash
# plant.sh ID [CHECKS...]: verify a planted bug end to end (patch applies, builds,
# stable tests pass, demo distinguishes, which checks catch it), then undo it
id=$1; shift; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
checks=${*:-$prop}
cd /repo; git diff --quiet || { echo "repo dirty"; exit 2; }
undo() { git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1; }
trap undo EXIT
t=$(mktemp -d); cp $d/* $t/; rm -f $t/meta.json $t/patch.diff
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $t/demo.sh >/dev/null 2>&1 && echo "demo clean: ok" || echo "demo clean: FAILS"
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh $t/o.json >/dev/null 2>&1
python3 - $t/o.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b
miss=[x for x in (st if isinstance(st,list) else st.keys()) if x not in o['passed']]
print("tests:", "ok" if not miss else "MISSING %s"%miss)
P
timeout 300 bash $t/demo.sh >/dev/null 2>&1 && echo "demo patched: PASSES (bad)" || echo "demo patched: ok (fails)"
for c in $checks; do (cd /verif; ./check $c 2>&1 | grep -E "VIOLATION|held" | head -2); done
rm -rf $t
