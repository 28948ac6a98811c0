#!/bin/bash
# Usage: check.sh <property id>.  Builds the harness against /repo's working tree and runs one check.
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
cd "$(dirname "$0")" || exit 2
export VH_VERIF="$PWD"
if [ "$1" = C04 ]; then crate=typed bin=vt; else crate=harness bin=vh; fi
. ./build.sh $crate || exit 2
exec harness/target/debug/$bin run "$1"
