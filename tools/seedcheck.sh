#!/bin/bash
# tools/seedcheck.sh ID... : runs the property's quick check against a scratch copy of /repo with each planted bug applied
for i in "$@"; do
  w=$(mktemp -d /tmp/wt-XXXXXX)
  git -C /repo archive HEAD include src | tar -x -C "$w"
  (cd "$w" && git init -q . && git apply "/verif/seeded/$i/patch.diff") || { echo "$i does not apply"; rm -rf "$w"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  s=$(date +%s)
  VERIF_REPO=$w python3 /verif/check.py $p --tier quick >/tmp/seedcheck.$i.log 2>&1; rc=$?
  echo "$i $p rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/seedcheck.$i.log)"
  rm -rf "$w"
done
