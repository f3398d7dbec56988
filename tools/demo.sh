#!/bin/bash
# Runs demo.rs (beside this file) against the crate built in /repo: exit 0 if the behaviour is right.
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
NAME="zz_demo_$$"
SRC="/repo/nyx-core/examples/$NAME.rs"
trap 'rm -f "$SRC"' EXIT
cp "$D/demo.rs" "$SRC"
cd /repo && cargo build --offline -q -p nyx-space --example "$NAME" || exit 2
rm -f "$SRC"
timeout 60 "/repo/target/debug/examples/$NAME"
RC=$?
rm -f /repo/target/debug/examples/$NAME*
exit $RC
