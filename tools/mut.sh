#!/bin/bash
# mut.sh FILE PERL-EXPR CHECK...: mutate one file of /repo's working tree, run checks, restore
f=$1; x=$2; shift 2
perl -0pi -e "$x" /repo/$f
if git -C /repo diff --quiet; then echo "no change: $x"; exit 1; fi
for k in "$@"; do
  out=$(timeout 900 python3 /verif/run/check.py $k 2>&1); rc=$?
  echo "mut [$x]: $k -> rc=$rc $(echo "$out" | grep -B2 VIOLATION | head -1 | cut -c1-200) $([ $rc = 2 ] && echo "$out" | tail -5)"
done
git -C /repo checkout -- .
