#!/bin/bash
# try_bug.sh ID...: runs the check of each planted bug's property with the bug applied to /repo, then undoes it.
cd "$(dirname "$0")/.." || exit 2
for b in "$@"; do
  P=${PROP:-$(python3 -c "import json,sys;print(json.load(open('seeded/$b/meta.json'))['property'])")}
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  for p in $P; do
    VERIF_SEED=1 VERIF_TIER=quick bash check.sh "$p" >/tmp/try_bug.out 2>&1; rc=$?
    echo "$b $p rc=$rc $(grep -h VIOLATION /tmp/try_bug.out | head -1) $(tail -1 /tmp/try_bug.out | cut -c1-150)"
  done
  git -C /repo checkout -q -- .
done
