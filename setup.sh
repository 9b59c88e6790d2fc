#!/bin/bash
# builds the harness (and the command-line program) once, so that checks only rebuild what changed
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd harness && cargo build --release --offline 2>&1 | tail -3
exit "${PIPESTATUS[0]}"
