#!/bin/bash
# quietrun.sh [NAME...]: runs the checks (CHECKS, default all) on each behaviour-preserving edit; prints those not quiet
cd /verif
[ $# = 0 ] && set -- $(ls tools/refactorings/*.diff | xargs -n1 basename | sed 's/.diff//')
for n in "$@"; do
  git -C /repo apply /verif/tools/refactorings/$n.diff || { echo "$n: does not apply"; continue; }
  for c in ${CHECKS:-$(seq -f 'C%02g' 1 23) C26 C27}; do
    s=$(date +%s)
    timeout 900 python3-vt engine/check.py $c > /tmp/quiet.$n.$c.log 2>&1; rc=$?
    [ $rc = 0 ] && ! grep -q "^INCOMPLETE\|^note" /tmp/quiet.$n.$c.log && rm /tmp/quiet.$n.$c.log && continue
    echo "$n $c: rc $rc in $(( $(date +%s) - s )) s; $(grep -m1 "^violation\|^error\|^INCOMPLETE\|^note" /tmp/quiet.$n.$c.log | cut -c1-300)"
  done
  git -C /repo checkout -q -- .
  echo "$n: done"
done
