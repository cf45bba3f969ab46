#!/bin/bash
# tryseed.sh ID...: runs the check of the property of each seeded bug with the bug applied
cd /verif
for id in "$@"; do
prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || continue
s=$(date +%s); out=$(VERIF_TIER=quick python3 check.py $prop 2>&1); rc=$?; e=$(date +%s)
git -C /repo checkout -- .
if [ $rc = 1 ] && echo "$out" | grep -q "VIOLATION property=$prop"; then echo "$id: caught by $prop ($((e-s)) s)"; else echo "$id: MISSED rc=$rc ($((e-s)) s)"; echo "$out" | tail -5; fi
done
