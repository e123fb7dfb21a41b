#!/bin/bash
# tools/runseeds.sh [ID...]: runs the check of each planted change's property against /repo with the change applied
cd "$(dirname "$0")/.."
for id in ${*:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    s=$(date +%s)
    timeout 900 python3-vt engine/check.py $p > /tmp/seed-$id.log 2>&1
    r=$?
    git -C /repo checkout -q -- .
    echo "$id $p exit $r $(( $(date +%s) - s ))s: $(grep VIOLATION /tmp/seed-$id.log | head -1)"
done
