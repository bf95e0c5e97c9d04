#!/bin/bash
# mutate.sh [id...]: runs the check of each planted change on a scratch copy of /repo with this change.
R=/tmp/mutate.$$
cd "$(dirname "$0")/.."
ids=${*:-$(ls seeded)}
for id in $ids; do
  rm -rf $R; cp -a /repo $R; git -C $R checkout -q -- .
  git -C $R apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  VF_REPO=$R VERIF_SEED=${VERIF_SEED:-1} python3 lib/check.py $p > $R.out 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION $R.out) $(python3 -c "import json;print(json.load(open('evidence/replay/$p-1.json'))['part'])" 2>/dev/null)"
done
rm -rf $R
