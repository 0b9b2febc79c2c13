#!/bin/bash
# tryseed.sh ID...: applies /verif/seeded/ID to a scratch copy of /repo and runs the check of its property there
# (DSIM_REPO/DSIM_BUILD point the build at the copy).  Uses the quick tier.
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/tryseed; mkdir -p $W
for id in "$@"; do
  [ -d $W/repo ] || cp -a /repo $W/repo
  git -C $W/repo fetch -q /repo HEAD && git -C $W/repo checkout -q -f FETCH_HEAD
  git -C $W/repo checkout -q -- . ; git -C $W/repo apply $V/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  DSIM_REPO=$W/repo DSIM_BUILD=$W/build python3 $V/check.py ${P:-$p} --tier ${TIER:-quick} --seed ${SEED:-1} >$W/$id.log 2>&1; rc=$?
  echo "$id: ${P:-$p} rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION $W/$id.log)"
  git -C $W/repo checkout -q -- .
done
