#!/bin/bash
# Applies every planted bug (or those named) to /repo, runs the check of its property, and undoes it.
cd "$(dirname "$0")/.."
for d in ${@:-seeded/*}; do
  d=seeded/$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s); o=$(./check.sh $p 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$(basename $d) $p exit=$r $(( $(date +%s)-s ))s $(echo "$o" | grep -a VIOLATION | head -1 | cut -c1-120) $(echo "$o" | grep -a -A1 VIOLATION | tail -1 | cut -c1-200)"
done
