#!/bin/bash
# seedrun.sh ID...: applies each planted bug to /repo, runs the check of its property, undoes it; one line per bug
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  (cd /verif && python3-vt engine/check.py ${CHECK:-$p} $TIER > /tmp/seedrun.$id.log 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id: rc $rc in $(( $(date +%s) - s )) s; $(grep -c ^VIOLATION /tmp/seedrun.$id.log) violations; $(grep -m1 ^VIOLATION /tmp/seedrun.$id.log | cut -c1-140) $( [ $rc = 1 ] || tail -2 /tmp/seedrun.$id.log | cut -c1-300)"
done
