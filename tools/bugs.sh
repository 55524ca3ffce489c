#!/bin/bash
# bugs.sh ID...: applies each planted change to /repo, runs its property's quick check and undoes it.
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V" || exit 2
for id in "$@"; do
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
  git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  t=$(date +%s)
  ./check.sh $p -tier quick >/tmp/bug.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/bug.$id.log; then r=caught; else r="MISSED (exit $rc)"; fi
  echo "$id $p: $r in $(( $(date +%s)-t )) s  $(grep -m1 ^VIOLATION /tmp/bug.$id.log)"
done
