#!/bin/bash
# run this property's check against planted bugs, on a copy of the repository
H=$(cd "$(dirname "$0")/.."; pwd)
for id in "$@"; do
  S=$H/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  T=$(mktemp -d /tmp/seed.XXXX)
  cp -a /repo "$T/repo"; git -C "$T/repo" apply "$S/patch.diff"
  out=$(cd $H && VERIF_REPO=$T/repo python3-vt check.py $P 2>&1); rc=$?
  echo "$id $P rc=$rc $(echo "$out" | grep -E 'VIOLATION' | head -1)"
  echo "$out" | head -1
  echo "$out" | grep -E 'failed obligation|FAILING|bounded' | head -4
  rm -rf "$T"
done
