#!/bin/bash
# check.sh <PROP> quick|thorough [--replay CASE]
# Builds the explorer against /repo's working tree and runs one property's check.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
. "$here/env.sh"
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift 2
build_harness || exit 3
case $prop in C20|C21|C22) build_ws || exit 3 ;; esac
exec "$CARGO_TARGET_DIR/debug/d10mc" "$prop" "$tier" "$@"
