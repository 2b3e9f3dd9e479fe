#!/bin/bash
# Builds the simulator from the committed files, offline.
dir="$(cd "$(dirname "$0")" && pwd)"
. "$dir/env.sh"
build
