#!/bin/bash
# trybug.sh ID...: confirms planted changes (applied to /repo and undone) and says which checks catch them
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
bash /opt/vp/build.sh > /tmp/tb.log 2>&1 || { echo "base does not build"; exit 1; }
cd /repo
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh > /tmp/tb.log 2>&1
  timeout 300 bash $d/demo.sh > /tmp/tb.base 2>&1; b=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if bash /opt/vp/build.sh > /tmp/tb.log 2>&1; then
    bash /opt/vp/test.sh /tmp/tb.json > /tmp/tb.test 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json'))
base=b.get('passed') or b.get('stable') or b
print('tests-ok' if set(base)<=set(r['passed']) else 'TESTS-FAIL')")
    timeout 300 bash $d/demo.sh > /tmp/tb.demo 2>&1; m=$?
    caught=""
    for c in ${CHECKS:-$prop}; do (cd /verif && python3 check.py $c > /tmp/tb.$c 2>&1); r=$?; [ $r = 1 ] && caught="$caught $c"; [ $r -gt 1 ] && caught="$caught $c:NOANSWER"; done
  else t=BUILD-FAIL; m=-; caught=; fi
  git checkout -q -- . 
  echo "$id ($prop): base demo $b, patched demo $m, $t, caught by:${caught:- NONE}"
  [ "$b" = 0 ] || tail -3 /tmp/tb.base
done
bash /opt/vp/build.sh > /tmp/tb.log 2>&1
