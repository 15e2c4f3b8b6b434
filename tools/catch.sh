#!/bin/bash
# catch.sh ID... : apply each planted bug to a scratch copy of /repo and run its property's check on it
w=$(mktemp -d /tmp/catch.XXXXXX); cp -a /repo "$w/r"
for i in "$@"; do d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C "$w/r" apply $d/patch.diff || { echo "$i does not apply"; continue; }
s=$(date +%s); PGV_REPO=$w/r PGV_EVIDENCE=$w python3-vt /verif/check.py $p > /tmp/catch.$i.out 2>&1; rc=$?
git -C "$w/r" checkout -q -- .; echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(tail -1 /tmp/catch.$i.out | cut -c1-150)"; done
rm -rf "$w"
