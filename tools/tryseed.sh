#!/bin/bash
# tryseed.sh ID...: run the property's check against a scratch copy of /repo with the bug applied
HERE=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$HERE/seeded/$id; t=$(mktemp -d /tmp/try-XXXXXX)
  git -C /repo archive HEAD | tar x -C "$t"
  (cd "$t" && git init -q . && git apply "$d/patch.diff") || { echo "$id: does not apply"; continue; }
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  out=$(cd "$HERE" && SYMX_REPO=$t timeout 900 python3 check.py "$p" --tier quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -m1 -A1 '^VIOLATION\|held\|INCONCLUSIVE' | tail -1 | cut -c1-150)"
  rm -rf "$t"
done
