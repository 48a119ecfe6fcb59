#!/bin/bash
# try_bug.sh ID...: applies each planted bug to /repo, runs its property's quick check, undoes it
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$SECONDS
  out=$(timeout 900 python3 lib/driver.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $((SECONDS-s))s $(echo "$out" | grep -c '^VIOLATION') violation(s)"
done
