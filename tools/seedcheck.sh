#!/bin/bash
# seedcheck.sh ID...: run the property's check on a copy of /repo with the seed applied
for id in "$@"; do
 w=/tmp/sc-$id; rm -rf "$w"; git clone -q /repo $w; git -C $w apply /verif/seeded/$id/patch.diff || echo noapply
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 t0=$(date +%s); VC_ROOT=$w python3-vt /verif/check.py $p --no-evidence > /tmp/sc-$id.out 2>&1; rc=$?
 echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -c ^VIOLATION /tmp/sc-$id.out) $(grep ^VIOLATION /tmp/sc-$id.out | head -2|tr '\n' ';')"
 rm -rf "$w"
done
