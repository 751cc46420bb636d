#!/bin/bash
# verify.sh ids... : clean-run of demos first, then patched
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls /verif/seeded))
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo build; exit 1; }
for i in "${ids[@]}"; do
 rm -rf /tmp/sd/s; cp -r /verif/seeded/$i /tmp/sd/s; rm -f /tmp/sd/s/*.diff /tmp/sd/s/meta.json
 bash /tmp/sd/s/demo.sh >/tmp/sd/clean.$i.log 2>&1; c=$?
 [ $c = 0 ] || { echo "$i CLEAN-DEMO $c"; tail -3 /tmp/sd/clean.$i.log | cut -c1-200; }
done
for i in "${ids[@]}"; do
 rm -rf /tmp/sd/s; cp -r /verif/seeded/$i /tmp/sd/s; rm -f /tmp/sd/s/*.diff /tmp/sd/s/meta.json
 git apply /verif/seeded/$i/patch.diff || { echo "$i NOAPPLY"; continue; }
 bash /opt/vp/test.sh /tmp/sd/t.json >/tmp/sd/t.log 2>&1; t=$?
 r=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b['stable']
t=json.load(open('/tmp/sd/t.json'))
m=[x for x in b if x not in t['passed']]
print(len(m), m[:3])
P
)
 bash /tmp/sd/s/demo.sh >/tmp/sd/bug.$i.log 2>&1; d=$?
 git checkout -q -- .
 nonorig=""
 while read f; do :; done < /dev/null
 echo "$i test=$t missing=$r demo=$d $(tail -1 /tmp/sd/bug.$i.log | cut -c1-110)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
git status --porcelain | head
