#!/bin/bash
# check.sh PROPERTY [quick|thorough] [more mc arguments]: rebuilds the harness against /repo's working tree and runs one check
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1; tier=${2:-quick}; shift 2
export VERIF_TIER=$tier
export VERIF_DIR=$PWD
log=$(mktemp)
if ! (cd harness && flock /tmp/.mc-build.lock cargo build --release --offline) >"$log" 2>&1; then
  # one retry: a stale incremental cache must not decide anything
  if ! (cd harness && flock /tmp/.mc-build.lock cargo build --release --offline) >"$log" 2>&1; then
    tail -40 "$log"; rm -f "$log"; echo "ERROR: /repo does not build with the harness"; exit 2
  fi
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/release/mc" "$id" --tier "$tier" "$@"
