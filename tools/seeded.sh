#!/bin/bash
# seeded.sh ID... : run the property's quick check against the planted bug
cd /verif
for id in "$@"; do
 R=/dev/shm/sd.$id; rm -rf $R; cp -a /repo $R; git -C $R apply /verif/seeded/$id/patch.diff || { echo "NOAPPLY $id"; continue; }
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 s=$(date +%s)
 VERIF_REPO=$R VERIF_SEED=${SEED:-1} timeout 900 ./check $p --tier quick > /tmp/w/sd.$id.log 2>&1; rc=$?
 echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION /tmp/w/sd.$id.log)"
 rm -rf $R
done
rm -f /verif/out/*
