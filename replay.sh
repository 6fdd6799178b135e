#!/bin/bash
# usage: replay.sh FILE   replays a violation. Exit 1 if it is reproduced
f="$(realpath "$1")"
cd "$(dirname "$0")" || exit 3
. ./env.sh
export VERIF_DIR="$PWD"
case "$(basename "$f")" in
  C22*|C23*|C24*|C25*|C27*|C28*) crate=sim-utils; bin=banyan-utils-sim ;;
  *) crate=sim; bin=banyan-sim ;;
esac
./build.sh "$crate" || exit 3
exec "$CARGO_TARGET_DIR/debug/$bin" replay "$f"
