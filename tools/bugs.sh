#!/bin/bash
# bugs.sh [id...]: applies each planted bug to /repo, runs its property's check, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json; print(json.load(open('seeded/$d/meta.json'))['property'])")
    git -C /repo apply "/verif/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
    s=$(date +%s)
    VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3 check.py $p > /tmp/bug-$d.log 2>&1; rc=$?
    git -C /repo checkout -- .
    echo "$d $p rc=$rc $(grep -c '^VIOLATION' /tmp/bug-$d.log) violations, $(($(date +%s) - s)) s: $(grep -m1 -B1 '^VIOLATION' /tmp/bug-$d.log | head -1 | cut -c1-150)"
done
