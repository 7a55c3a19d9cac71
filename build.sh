#!/bin/bash
# Builds the simulator against the current tree of /repo, into /verif/target (ignored by git).
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=0
cd sim/harness
exec cargo build --offline --quiet "$@"
