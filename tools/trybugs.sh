#!/bin/bash
# trybugs.sh [ID...]: runs the quick check of each planted change's property against it (dev helper)
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i APPLY-FAIL"; continue; }
  timeout 900 python3 check.py $p quick > /tmp/try.$i.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(grep -m1 -A1 VIOLATION /tmp/try.$i.log | tr '\n' ' ' | cut -c1-260)"
done
