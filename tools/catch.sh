#!/bin/bash
# For each planted bug: apply it to a scratch copy of /repo, run its property's check there.
# usage: catch.sh [ID ...]      (LAB: where, default /tmp/lab; made anew)
lab="${LAB:-/tmp/lab}"
bash /verif/tools/lab.sh "$lab" || exit 2
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C "$lab/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(bash "$lab/verif/check.sh" "$prop" 2>&1); rc=$?
  git -C "$lab/repo" checkout -q -- .
  echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 "^$prop: " | cut -c1-100)"
done
