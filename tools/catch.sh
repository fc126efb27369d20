#!/bin/bash
# catch.sh [ID...] : apply each planted bug to /repo, run its property's quick check, undo. Prints caught / MISSED.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py $p quick > /tmp/catch.$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  e=$(( $(date +%s) - s ))
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" /tmp/catch.$d.log; then echo "$d $p caught (${e}s)"; else echo "$d $p MISSED rc=$rc (${e}s)"; fi
done
