#!/bin/bash
# builds the simulators from the working tree of /repo
cd "$(dirname "$0")" || exit 3
. ./env.sh
for crate in "${@:-sim}"; do
  log="$(mktemp)"
  if ! cargo build --offline --locked --manifest-path "$crate/Cargo.toml" >"$log" 2>&1; then
    cat "$log"; /bin/rm -f "$log"; exit 1
  fi
  /bin/rm -f "$log"
done
