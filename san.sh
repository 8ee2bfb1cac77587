#!/bin/bash
# san.sh [quick|thorough]: property C40. Runs the workloads of other properties, built with AddressSanitizer and with the
# preconditions of unsafe functions checked; only what the sanitizer or those checks report counts here.
cd "$(dirname "$0")" || exit 3
. ./env.sh
. ./san.env.sh
export VERIF_TIER=${1:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
rm -f evidence/C40.json
mkdir -p evidence "$CARGO_TARGET_DIR"
./freshen.sh || exit 3
exec python3 tools/san.py
