#!/bin/bash
# usage: try_bugs.sh [id ...]: runs the check of each planted bug on a scratch copy with the bug; prints what it said
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
for b in "$@"; do
  d=$(mktemp -d /tmp/trybug.XXXXXX); cp -a /repo "$d/r"; git -C "$d/r" apply "$PWD/seeded/$b/patch.diff"
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$b/meta.json'))['property'])")
  s=$(date +%s); o=$(VSIM_REPO=$d/r VERIF_SEED=${VERIF_SEED:-1} timeout 900 /opt/venv/bin/python check.py $p 2>&1); rc=$?
  echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -m1 VIOLATION)"
  rm -rf "$d"
done
