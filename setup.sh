#!/bin/bash
# Builds the dependencies and every harness binary once; each check then rebuilds nyx-space and its own binary only.
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p evidence harness/target
./freshen.sh
cd harness && cargo build --offline --locked --bins 2>&1 | tail -5
RC=${PIPESTATUS[0]}
[ "$RC" = 0 ] || exit "$RC"
# The same for the binaries of C40.
cd .. && . ./san.env.sh && mkdir -p "$CARGO_TARGET_DIR" && ./freshen.sh
cd harness && cargo build --offline --locked --bin dynx --bin mc 2>&1 | tail -5
exit "${PIPESTATUS[0]}"
