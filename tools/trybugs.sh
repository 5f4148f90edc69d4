#!/bin/bash
# run the check of each planted bug's property with the bug applied to /repo (undone afterwards)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  s=$(date +%s)
  ./check.sh $p > /tmp/plant/$d.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION /tmp/plant/$d.out) $(grep ^VIOLATION /tmp/plant/$d.out | head -1 | cut -c1-150)"
done
