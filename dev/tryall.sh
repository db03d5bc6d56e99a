#!/bin/bash
# tryall.sh [ID...] : runs each planted bug's check against it (dev helper)
cd /verif
git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d no apply"; continue; }
  out=$(python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -c VIOLATION) $(echo "$out" | head -1 | grep -o '[0-9.]* s$') $(echo "$out"| grep -A1 violations | tail -1 | cut -c1-120)"
done
