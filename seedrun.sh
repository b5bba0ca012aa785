#!/bin/bash
# seedrun.sh ID...: runs the check of each planted bug against it (development aid)
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  s=$(date +%s)
  o=$(cd /verif && python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s: $(echo "$o" | grep -E 'broken:|VIOLATION|undecided' | head -4 | cut -c1-200)"
done
