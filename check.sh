#!/bin/bash
# check.sh ID: decides property ID on the current tree of /repo.  VERIF_SEED, VERIF_TIER as in MANIFEST.json.
cd "$(dirname "$0")"
if ! ./build.sh 2>target.build.log; then
  tail -40 target.build.log >&2
  echo "the simulator does not build against this tree" >&2
  exit 2
fi
rm -f "$PWD/target.build.log"
export VSIM_DIR="$PWD"
exec ./target/debug/vsim check "$1"
