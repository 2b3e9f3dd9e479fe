#!/bin/bash
# Reverts every repair of /repo in turn (working tree only) and runs the checks of the property it belongs to.
# exit 0 if every one of them is reported.
cd "$(dirname "$0")/.."
rc=0
[ "$1" ] && only="$1"
while read -r _ p c _; do
  [ -n "$only" ] && [ "$only" != "$c" ] && continue
  id="${p#property=}"
  git -C /repo checkout -q -- .
  if ! git -C /repo revert -n "$c" >/dev/null 2>&1; then
    git -C /repo revert --abort 2>/dev/null; git -C /repo checkout -q -f HEAD -- .
    echo "$id $c: does not revert alone"; continue
  fi
  git -C /repo reset -q
  # the simulator names the added error
  git -C /repo checkout -q -- src/encode/error.rs
  out="$(./check.sh "$id" 2>&1)"; r=$?
  echo "$id $c rc=$r $(echo "$out" | grep -a VIOLATION | head -1 | cut -c1-200)"
  [ $r = 1 ] || rc=1
  git -C /repo checkout -q -- .
done < <(grep '^fixed:' KNOWN_FINDINGS)
exit $rc
