#!/bin/bash
# check.sh ID [quick|thorough]   rebuilds the harness against /repo's working tree and runs the checks of one property
# check.sh --replay FILE         replays one recorded failing input
# check.sh --build               only builds
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR
. /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
export CARGO_TARGET_DIR="$VERIF_DIR/target"
cd "$VERIF_DIR/harness" || exit 3
if ! cargo build --offline >"$VERIF_DIR/target.log" 2>&1; then
    tail -40 "$VERIF_DIR/target.log"
    echo "the harness does not build against /repo"
    exit 3
fi
BIN="$CARGO_TARGET_DIR/debug/nyxpbt"
case "$1" in
--build) exit 0 ;;
--replay) exec "$BIN" replay "$2" ;;
*) exec "$BIN" run "$1" "${2:-quick}" ${3:+"$3"} ;;
esac
