#!/bin/bash
# run.sh <property> : builds the harness against /repo's working tree and runs one check.
# VERIF_SEED and VERIF_TIER select seed and tier (quick or thorough).
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
ID=$1
export CARGO_NET_OFFLINE=true VERIF_ROOT=$ROOT
"$ROOT/build.sh" >&2 || { echo "ERROR: the harness does not build against /repo" ; exit 2; }
export VERIF_BIN_SP=$ROOT/harness/target/bin-sp VERIF_BIN_NOSP=$ROOT/harness/target/bin-nosp
exec "$VERIF_BIN_SP" check "$ID"
