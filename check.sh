#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_SEED, VERIF_TIER)
# exit 0: held on everything explored, 1: VIOLATION, other: error of the check
cd "$(dirname "$0")" || exit 3
. ./env.sh
export VERIF_DIR="$PWD"
case "$1" in
  C22|C23|C24|C25|C27|C28) crate=sim-utils; bin=banyan-utils-sim ;;
  *) crate=sim; bin=banyan-sim ;;
esac
./build.sh "$crate" || { echo "ERROR: build failed"; exit 3; }
ulimit -v 12000000 2>/dev/null
ulimit -c 0
exec "$CARGO_TARGET_DIR/debug/$bin" check "$1"
