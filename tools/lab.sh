#!/bin/bash
# A scratch copy of /repo and the simulator under DIR, for trying changes without
# touching /repo: lab.sh DIR; then DIR/verif/check.sh PROP checks DIR/repo.
d="$1"; mkdir -p "$d/verif"
rm -rf "$d/repo"; git clone -q /repo "$d/repo"
for f in sim build.sh check.sh KNOWN_FINDINGS.txt; do cp -a "/verif/$f" "$d/verif/"; done
mkdir -p "$d/verif/target"; cp -a /verif/target/release "$d/verif/target/" 2>/dev/null
sed -i "s#path = \"/repo\"#path = \"$d/repo\"#" "$d/verif/sim/vsim/Cargo.toml"
sed -i "s#/repo#$d/repo#" "$d/verif/sim/vsim/Cargo.lock" 2>/dev/null
bash "$d/verif/build.sh"
