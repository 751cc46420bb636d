#!/bin/bash
# check.sh ids: property check against a patched copy
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls /verif/seeded))
cd /verif
for i in "${ids[@]}"; do
 rm -rf /tmp/mut; mkdir /tmp/mut; git -C /repo archive HEAD | tar x -C /tmp/mut; (cd /tmp/mut; git init -q; git add -A; git -c user.name=a -c user.email=a commit -qm x; git apply --whitespace=nowarn /verif/seeded/$i/patch.diff) || { echo "$i NOAPPLY"; continue; }
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
 s=$(date +%s); VERIF_REPO=/tmp/mut timeout 900 python3 run.py $p >/tmp/sd/c.$i.log 2>&1; r=$?
 echo "$i $p rc=$r $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/sd/c.$i.log | cut -c1-150)"
done
