#!/bin/bash
# try.sh <name> <property>...: applies a planted bug to /repo, runs the checks, undoes it.
n=$1; shift
git -C /repo apply /verif/seeded/$n/patch.diff || exit 2
for p in "$@"; do
  bash /verif/check.sh $p quick > /tmp/try-$n-$p.log 2>&1; r=$?
  echo "$n $p exit=$r $(grep -E 'VIOLATION|^runs' /tmp/try-$n-$p.log | tail -1) :: $(grep -B2 VIOLATION /tmp/try-$n-$p.log | head -1 | cut -c1-150)"
done
git -C /repo checkout -- .
