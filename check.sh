#!/bin/bash
# check.sh PROP: builds the simulator with /repo's working tree and runs the check of PROP.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VSIM_ROOT="$here" CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
bash "$here/build.sh" || exit 2
exec "$here/target/release/vsim" check "$1"
