#!/bin/bash
# development tool: apply each planted change to /repo, run the check of its property, undo it, report
cd /verif
for d in ${@:-seeded/*}; do
  d=${d#seeded/}; d=${d%/}
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY FAILED"; continue; }
  s=$(date +%s)
  timeout 900 python3 tools/check.py $p > /tmp/seed_$d.log 2>&1; r=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$r $(( $(date +%s)-s ))s $(grep -m1 '^VIOLATION' /tmp/seed_$d.log | cut -c1-120)"
done
