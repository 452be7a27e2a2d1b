#!/bin/bash
# tools/trial.sh BUGID CHECK...   run checks with a planted bug applied to /repo, then undo
cd "$(dirname "$0")/.." || exit 2
b=$1; shift
git -C /repo apply "$PWD/seeded/$b/patch.diff" || exit 2
for c in "$@"; do
  bash run.sh $c quick > /tmp/trial_$b_$c.log 2>&1; rc=$?
  echo "$b $c rc=$rc $(grep -m1 VIOLATION /tmp/trial_$b_$c.log) $(tail -1 /tmp/trial_$b_$c.log | cut -c1-150)"
done
git -C /repo checkout -- .
