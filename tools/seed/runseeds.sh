#!/bin/sh
# runseeds.sh [id...]: development aid; runs the quick check of each planted bug's
# property against it (applied to /repo and undone straight afterwards).
cd /verif || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
trap 'git -C /repo checkout -q -- .' EXIT INT TERM
for id; do
 p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
 git -C /repo apply "seeded/$id/patch.diff" 2>/dev/null || git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; continue; }
 s=$(date +%s)
 out=$(sh check.sh $p quick 2>&1); rc=$?
 git -C /repo checkout -q -- .
 echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(printf "%s" "$out" | grep -c VIOLATION) $(printf "%s" "$out" | grep -m1 VIOLATION | cut -c1-150)"
done
