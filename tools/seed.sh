#!/bin/bash
# seed.sh [-n] ID...: tries planted bugs in a scratch copy: demo, build, stable tests, demo, check (-n: no check)
# Development tool only; no check uses it.
check=1; [ "$1" = -n ] && { check=; shift; }
HERE="$(cd "$(dirname "$0")/.." && pwd)"
W=/tmp/seedtry
. /opt/vp/env.sh
for id in "$@"; do
  S="$HERE/seeded/$id"
  mkdir -p $W; rsync -a --delete /repo/ $W/ 2>/dev/null || { [ -d $W/.git ] && git -C $W checkout -q -- . ; cp -a /repo/. $W/; }
  cd $W; git checkout -q -- .
  prop=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
  bash "$S/demo.sh" >/tmp/seed.log 2>&1 && r1=ok || r1=FAIL-ON-CLEAN
  git apply "$S/patch.diff" || { echo "$id: patch does not apply"; continue; }
  go build ./... || { echo "$id: does not build"; continue; }
  t=$(go test -vet=off -count=1 ./... 2>&1 | grep -c '^FAIL\|^--- FAIL')
  bash "$S/demo.sh" >/tmp/seed.log2 2>&1 && r2=PASSES-WITH-BUG || r2=ok
  res=skipped
  if [ -n "$check" ]; then
    VERIF_REPO=$W VERIF_OUT=seed timeout 900 "$HERE/bin/check.sh" $prop quick > /tmp/seed.check 2>&1; rc=$?
    res="rc=$rc $(grep -m1 VIOLATION /tmp/seed.check)"
  fi
  echo "$id ($prop): demo clean=$r1 buggy=$r2 failing-tests=$t check: $res"
  git checkout -q -- .
done
