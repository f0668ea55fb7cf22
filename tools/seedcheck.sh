#!/bin/bash
# confirm a planted bug: applies, builds, keeps the stable tests passing, demo passes without and fails with it
# usage: seedcheck.sh ID...
H=$(cd "$(dirname "$0")/.."; pwd)
. /opt/vp/env.sh
for id in "$@"; do
  S=$H/seeded/$id
  T=$(mktemp -d /tmp/seed.XXXX)
  cp -a /repo "$T/repo"
  cd "$T/repo"
  bash "$S/demo.sh" >"$T/demo0" 2>&1; d0=$?
  git apply "$S/patch.diff" || { echo "$id: does not apply"; rm -rf "$T"; continue; }
  go build ./... >"$T/b" 2>&1; b=$?
  go test -vet=off ./... >"$T/t" 2>&1; t=$?
  bash "$S/demo.sh" >"$T/demo1" 2>&1; d1=$?
  ok=BAD; [ $d0 = 0 ] && [ $b = 0 ] && [ $t = 0 ] && [ $d1 != 0 ] && ok=good
  echo "$id: $ok demo(clean)=$d0 build=$b tests=$t demo(patched)=$d1"
  [ $ok = BAD ] && for f in demo0 b t demo1; do grep -vE "^ok|no test files|^PASS" $T/$f | tail -n 6; done
  cd /; rm -rf "$T"
done
