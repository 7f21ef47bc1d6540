#!/bin/bash
# run_seeds.sh [ID...]: apply each planted bug to a private copy of /repo and run
# its property's quick check on it.
cd "$(dirname "$0")/.."
[ "$PRIV" ] || PRIV=1 exec bash tools/priv.sh bash tools/run_seeds.sh "$@"
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s)
  bash check.sh $p quick > /tmp/seed_$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  n=$(grep -c "^VIOLATION property=$p" /tmp/seed_$d.log)
  echo "$d $p rc=$rc violations=$n $(( $(date +%s) - s ))s $([ $rc = 1 ] && [ $n -gt 0 ] && echo CAUGHT || echo MISSED)"
done
