#!/bin/bash
# det.sh SEEDID [CHECK]: runs the property's check against a patched copy
id=$1; d=/verif/seeded/$id
prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
rm -rf /tmp/dr_$id; cp -a /repo /tmp/dr_$id; git -C /tmp/dr_$id apply $d/patch.diff || exit 9
rm -rf /tmp/dv_$id; mkdir /tmp/dv_$id; cp -a /verif/spec /verif/vp /verif/drivers /verif/checks /verif/*.txt /verif/*.jsonl /tmp/dv_$id/; mkdir /tmp/dv_$id/.build
cd /tmp/dv_$id; VP_REPO=/tmp/dr_$id VERIF_SEED=${SEED:-1} python3 checks/$prop.py > /tmp/sd/det_$id.log 2>&1; echo "$id $prop rc=$? $(grep -c '^VIOLATION' /tmp/sd/det_$id.log)"
rm -rf /tmp/dr_$id /tmp/dv_$id
