#!/bin/bash
# tools/revert.sh <commit> <property> [seeds]: does the check report the defect that the fix repaired?
set -e
d=/tmp/revert.$$; mkdir $d; trap "rm -rf $d" EXIT
git clone -q /repo $d/r; cd $d/r
git config user.email a@b; git config user.name a
git revert --no-edit $1 >/dev/null || { echo "CONFLICT $1"; exit 2; }
for s in ${3:-1 2}; do
 (cd /verif; VERIF_REPO=$d/r VERIF_BUILD=$d/b VERIF_OUT=$d/o VERIF_SEED=$s VERIF_TIER=quick timeout 900 python3 run.py $2 quick 2>&1 | grep -v "^observed" | cut -c1-400 | tail -4)
done
