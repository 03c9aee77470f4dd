#!/bin/bash
# seedtest.sh ID...: does each planted bug count (applies, builds, passes the tests, demo 0 without and non-zero with it),
# and which of the checks named by its meta.json (or by CHECKS) catch it?
for id in "$@"; do
  d=/verif/seeded/$id
  [ -f $d/patch.diff ] || { echo "$id: no patch"; continue; }
  w=$(mktemp -d /tmp/seedXXXX); cp -a /repo "$w/repo"; cd "$w/repo" || exit 2
  t=$(mktemp -d /tmp/demoXXXX); cp -a "$d/." "$t/"; rm -f "$t"/*.diff "$t"/meta.json
  o=""
  bash $t/demo.sh >$w/d0 2>&1 || o="$o DEMO-FAILS-ON-CLEAN"
  git apply $d/patch.diff 2>$w/ap || o="$o PATCH-FAILS"
  . /opt/vp/env.sh
  go build ./... >$w/b 2>&1 || o="$o BUILD-FAILS"
  go vet ./... >/dev/null 2>&1 
  go test -vet=off -count=1 ./... 2>&1 | grep -q '^FAIL\|^--- FAIL' && o="$o TESTS-FAIL"
  bash $t/demo.sh >$w/d1 2>&1 && o="$o DEMO-PASSES-WITH-BUG"
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  res=""
  if [ -z "$NOCHECK" ]; then
    for c in ${CHECKS:-$p}; do
      if [ -f /verif/harness/${c,,}.go ]; then
        out=$(cd /verif && VERIF_REPO=$w/repo timeout 900 python3 check.py $c 2>&1); rc=$?
        echo "$out" | cut -c1-220 | head -2 | sed 's/^/      /'
        res="$res $c=$rc"
      else res="$res $c=none"; fi
    done
  fi
  echo "$id [$p]: ${o:-ok} $res"
  [ -n "$o" ] && { head -c 600 $w/d0 $w/ap $w/b $w/d1 2>/dev/null; }
  cd /; rm -rf "$w" "$t"
done
