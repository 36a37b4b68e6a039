#!/bin/bash
# Builds the explorer (and what it drives) from the committed files, offline.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
. "$here/env.sh"
build_harness &&
build_ws
