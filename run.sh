#!/bin/bash
# run.sh <property> [quick|thorough] [--replay file]: builds the harness binary of that property from /repo's
# working tree and runs its monitors. Exit 0: held; 1: VIOLATION; other: the check itself failed.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
. ./env.sh
P=$1; shift
case "$1" in quick|thorough) export VERIF_TIER=$1; shift;; esac
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
[ "$P" = C40 ] && exec ./san.sh "$VERIF_TIER"
BIN=$(awk -v p="$P" '$1==p{print $2}' bins.txt)
[ -n "$BIN" ] || { echo "unknown property $P"; exit 3; }
rm -f "evidence/$P.json"
mkdir -p evidence harness/target
./freshen.sh || exit 3
cd harness
LOG=$CARGO_TARGET_DIR/build-$P.log
if ! cargo build --offline --locked --bin "$BIN" >"$LOG" 2>&1; then
  echo "the harness does not build against /repo:"; grep -E '^error' -A6 "$LOG" | head -60
  exit 3
fi
ulimit -c 0
ERR=$CARGO_TARGET_DIR/stderr-$P.log
"$CARGO_TARGET_DIR/debug/$BIN" "$P" "$@" 2> >(tee "$ERR" >&2)
RC=$?
case $RC in
132|134|135|136|139) # aborted by a checked precondition, a stack overflow, an invalid access...
  cd "$VERIF_DIR"; mkdir -p evidence/replay
  R=$VERIF_DIR/evidence/replay/$P-crash.txt
  { echo "VERIF_SEED=$VERIF_SEED ./run.sh $P $VERIF_TIER $*: the monitored process ended with status $RC"; tail -c 4000 "$ERR"; } > "$R"
  printf '{"property":"%s","tier":"%s","seed":%d,"level":"exploration","coverage":{"evaluations":1,"distinct_nontrivial":1,"rule":"the run crashed","samples":["%s"]},"wall_s":%d,"violations":1}\n' "$P" "$VERIF_TIER" "$VERIF_SEED" "status $RC" "$SECONDS" > "evidence/$P.json"
  echo "  the monitored process ended with status $RC"
  echo "VIOLATION property=$P replay=$R"
  exit 1;;
esac
exit $RC
