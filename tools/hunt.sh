#!/bin/bash
# hunt.sh ID...: applies each planted bug to /repo, runs the check of its property, undoes it.
cd "$(dirname "$0")/.." || exit 2
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
  prop=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(bash run.sh ${CHECK:-$prop} ${TIER:-quick} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id: $prop rc=$rc $(( $(date +%s) - s ))s: $(echo "$out" | head -3 | cut -c1-220 | tr '\n' '|')"
done
