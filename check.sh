#!/bin/bash
# check.sh <property> [quick|thorough] : builds the simulator against /repo's working tree and runs one property's search.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export CARGO_TARGET_DIR=$ROOT/target
. sim/env.sh
cd sim || exit 2
# build.rs of the filter crate writes this git-ignored file into its own source folder; make it do so again when it is gone
[ -f /repo/crates/kuadrant-filter/src/proto/kuadrant.v1.rs ] || cargo clean -q --release -p kuadrant-filter $CARGO_CFG >/dev/null 2>&1
LOG=$(mktemp /tmp/simbuild.XXXXXX)
if ! cargo build --release $CARGO_CFG >"$LOG" 2>&1; then tail -40 "$LOG"; rm -f "$LOG"; echo "BUILD FAILED"; exit 2; fi
rm -f "$LOG"
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/simcheck" check "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" "$ROOT"
