#!/usr/bin/env bash
# try_seed.sh <id>...: applies the planted change to /repo, runs its property's quick check, undoes it.
for ID in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "$ID does not apply"; continue; }
  S=$(date +%s); /verif/check.sh $P quick >/tmp/try-$ID.log 2>&1; RC=$?
  git -C /repo checkout -q -- .
  echo "$ID $P rc=$RC $(( $(date +%s)-S ))s $(grep -m1 VIOLATION /tmp/try-$ID.log)"
done
