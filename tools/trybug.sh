#!/bin/bash
# trybug.sh ID PROPERTY... : run checks against a copy of /repo with the seeded change (or the tree $WT)
id=$1; shift
t=/tmp/try_$id; rm -rf "$t"; mkdir -p "$t"
if [ -n "$WT" ]; then cp -a "$WT" "$t/repo"; else cp -a /repo "$t/repo"; git -C "$t/repo" apply /verif/seeded/$id/patch.diff || exit 9; fi
[ -d /verif/_build/o ] && { mkdir -p "$t/b"; }
for p in "$@"; do
  VERIF_REPO=$t/repo VERIF_BUILD=$t/b VERIF_SEED=1 timeout 900 python3 /verif/check.py $p > $t/out.$p 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -m1 VIOLATION $t/out.$p)"
done
rm -rf "$t/repo" "$t/b"
