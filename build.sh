#!/bin/bash
# Builds the simulator against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/lock"
flock 9
# cargo compares times; a changed file with an old time must be seen as well
rm -rf "$here"/target/release/.fingerprint/venial-* "$here"/target/release/.fingerprint/vsim-*
log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --offline --release --manifest-path "$here/sim/vsim/Cargo.toml" >"$log" 2>&1; then
    tail -40 "$log" >&2
    exit 2
fi
