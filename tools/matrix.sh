#!/bin/bash
# runs the property's check against each planted change: matrix.sh [ID...]
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d $p NOAPPLY"; continue; }
  s=$(date +%s)
  timeout 900 python3 check.py $p > /tmp/m.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/m.out | cut -c1-150)"
done
