#!/bin/bash
# replay.sh <file>: rebuilds against /repo's working tree and replays one recorded run exactly.
dir="$(cd "$(dirname "$0")" && pwd)"
. "$dir/env.sh"
build || exit 2
exec "$VERIF_BIN" replay "$1"
