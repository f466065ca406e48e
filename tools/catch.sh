#!/bin/bash
# catch.sh ID...: applies /verif/seeded/ID to /repo, runs the property's check, undoes it
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || continue
s=$(date +%s)
(cd /verif && VERIF_SEED=1 bash check.sh $p) > /tmp/catch_$id.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$id $p rc=$rc $(( $(date +%s)-s ))s: $(grep -m2 VIOLATION /tmp/catch_$id.log)"
done
