#!/bin/bash
# revert_test.sh COMMIT CHECK...: undo one fix in /repo's working tree, run checks, restore
c=$1; shift
git -C /repo diff $c $c^ -- src crates | git -C /repo apply || { echo "cannot revert $c"; exit 1; }
for k in "$@"; do
  out=$(python3 /verif/run/check.py $k 2>&1); rc=$?
  echo "revert $c: $k -> rc=$rc $(echo "$out" | grep -B2 VIOLATION | head -1 | cut -c1-150)"
done
git -C /repo checkout -- .
