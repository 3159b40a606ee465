#!/bin/bash
# run_seeds.sh [ID...]: apply each planted bug to /repo, run its property's quick check, undo
V=$(cd "$(dirname "$0")/.." && pwd); cd "$V" || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' seeded/$s/meta.json)
  git -C /repo apply "$V/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  a=$(date +%s); python3 check.py ${P:-$p} quick > /tmp/seed_$s.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=${P:-$p} " /tmp/seed_$s.log; then echo "$s ${P:-$p} caught ($(( $(date +%s) - a )) s)"; else echo "$s ${P:-$p} MISSED rc=$rc"; fi
done
