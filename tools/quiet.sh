#!/bin/bash
# The checks have to stay quiet on edits that keep the behaviour: applies refactors/*.diff to a scratch
# copy of /repo and runs every check (or those named) there.  Usage: tools/quiet.sh [ids...]
here="$(cd "$(dirname "$0")/.." && pwd)"
t="$(mktemp -d /tmp/quiet.XXXXXX)"
trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo" && git -C "$t/repo" checkout -q -- . || exit 2
for d in "$here"/refactors/*.diff; do git -C "$t/repo" apply "$d" || { echo "$d does not apply"; exit 2; }; done
mkdir -p "$t/verif/sim" "$t/verif/evidence" "$t/verif/replays"
cd "$here" && cp -a KNOWN_FINDINGS MANIFEST.json check.sh env.sh properties.jsonl setup.sh replay.sh "$t/verif/"
cp -a sim/Cargo* sim/src sim/*.sh "$t/verif/sim/" 2>/dev/null
[ -d sim/.cargo ] && cp -a sim/.cargo "$t/verif/sim/"
grep -rl '/repo' "$t/verif/sim/src" "$t/verif/sim/Cargo.toml" "$t/verif/env.sh" "$t/verif/check.sh" | xargs -r sed -i "s#\"/repo#\"$t/repo#g"
bad=0
for i in ${@:-$(seq -f 'C%02g' 1 21)}; do
  o="$(cd "$t/verif" && timeout 900 ./check.sh "$i" 2>&1)"; r=$?
  echo "$i rc=$r $(echo "$o" | tail -1 | cut -c1-150)"
  [ $r = 0 ] || { bad=1; echo "$o" | cut -c1-600 | tail -12; }
done
exit $bad
