#!/bin/bash
# runs each planted bug's check against a scratch copy (PV_REPO) and prints the outcome
cd /verif
for d in ${@:-$(ls seeded)}; do
  wt=$(mktemp -d /tmp/rs-XXXX); git -C /repo archive HEAD | tar -x -C $wt
  (cd $wt && git init -q . && git apply /verif/seeded/$d/patch.diff) || echo "PATCH FAIL $d"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  o=$(PV_REPO=$wt timeout 900 python3 -m pv.check $p 2>&1); rc=$?
  echo "$d $p rc=$rc $(echo "$o" | grep VIOLATION | head -1 | cut -c1-160)"
  rm -rf $wt
done
