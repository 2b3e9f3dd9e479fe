#!/bin/bash
# check.sh <property>: builds the simulator against /repo's working tree and checks one property.
# Exit 0 held, 1 violated (with a VIOLATION line), 2 harness or build error.
dir="$(cd "$(dirname "$0")" && pwd)"
. "$dir/env.sh"
build || exit 2
exec "$VERIF_BIN" check "$1"
