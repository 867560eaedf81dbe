#!/bin/bash
# confirms planted bugs: tools/seeds.sh [id...]; applies each to /repo, builds, runs the stable tests, the demo and the check, undoes it
cd /verif/seeded
for id in ${@:-*}; do
  p=/verif/seeded/$id/patch.diff
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  cp -r /verif/seeded/$id /tmp/demo_$id
  (cd /repo; timeout 300 bash /tmp/demo_$id/demo.sh) >/tmp/demo_$id.clean 2>&1; clean=$?
  git -C /repo apply $p || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/demo_$id.build 2>&1; b=$?
  tests=$(bash /opt/vp/test.sh /tmp/demo_$id.json 2>&1 | tail -1)
  (cd /repo; timeout 300 bash /tmp/demo_$id/demo.sh) >/tmp/demo_$id.out 2>&1; bad=$?
  res=$(cd /verif; VERIF_SEED=1 python3 check.py $prop 2>&1 | grep -c "^VIOLATION property=$prop ")
  git -C /repo checkout -q -- .
  echo "$id $prop: build $b, $tests, demo $clean/$bad, violations $res | $(tail -1 /tmp/demo_$id.out | cut -c1-100)"
  rm -rf /tmp/demo_$id
done
