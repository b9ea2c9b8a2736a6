#!/bin/bash
# tools/tryseed.sh ID [nocheck]: confirm a planted change and run its property's check against it (restores /repo afterwards)
ID=$1; S=/verif/seeded/$ID
[ -f $S/patch.diff ] || { echo no patch; exit 2; }
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo base build failed; exit 2; }
bash $S/demo.sh >/tmp/seed_demo0.log 2>&1; D0=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; B=$?
if [ $B = 0 ]; then
  bash /opt/vp/test.sh /tmp/seed_tests.json >/tmp/seed_test.log 2>&1
  T=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_tests.json'))
ps=b["stable"]
rp=set(r.get('passed') or r.get('pass') or [])
print(len([x for x in ps if x not in rp]))
P
)
  bash $S/demo.sh >/tmp/seed_demo1.log 2>&1; D1=$?
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  if [ "$2" != nocheck ]; then (cd /verif && VERIF_SEED=1 timeout 900 python3-vt -m vf.check $P > /tmp/seed_check.log 2>&1; echo $? > /tmp/seed_rc); fi
fi
git checkout -q -- .
echo "$ID prop=$P demo_base=$D0 build=$B tests_lost=$T demo_bug=$D1 check_rc=$(cat /tmp/seed_rc 2>/dev/null) :: $(grep -m1 VIOLATION /tmp/seed_check.log)"
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
