#!/bin/bash
# Applies each planted bug to /repo, runs its property's quick check, undoes it. Prints what was caught.
cd /verif
for d in seeded/*/; do
    id=$(basename "$d")
    [ $# -gt 0 ] && [[ ! " $* " == *" $id "* ]] && continue
    p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
    git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id does not apply"; continue; }
    s=$(date +%s)
    out=$(./check.sh "$p" quick 2>&1); rc=$?
    git -C /repo checkout -q -- .
    echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -v '^VIOLATION' | head -1 | cut -c1-160)"
done
git -C /repo status --short
