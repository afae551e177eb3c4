#!/bin/bash
# development only: validate seeds (build, stable tests, demo, own check); usage: seedtest.sh id...   result lines in /tmp/u/seeds.log
L=/tmp/u/seeds.log; export VERIF_REPO=/repo
for s in "$@"; do
 D=/verif/seeded/$s; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
 if [ -n "$(git -C /repo status --porcelain)" ]; then echo "$s: /repo dirty" | tee -a $L; exit 1; fi
 git -C /repo apply $D/patch.diff || { echo "$s: patch does not apply" | tee -a $L; continue; }
 (cd /verif && python3 check.py $P > /tmp/u/seed.$s.chk 2>&1); c=$?
 if bash /opt/vp/test.sh /tmp/u/seed.$s.json > /tmp/u/seed.$s.log 2>&1; then b=ok; else b=testrc$?; fi
 miss=$(python3 - /tmp/u/seed.$s.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('passed') or b.get('stable') or b
r=set(json.load(open(sys.argv[1]))['passed']); print(len([x for x in b if x not in r]))
P
)
 (cd /repo && bash $D/demo.sh > /tmp/u/seed.$s.demo 2>&1); d=$?
 git -C /repo checkout -- .
 echo "$s: prop=$P check_rc=$c build/test=$b stable_missing=$miss demo_rc_with_patch=$d" | tee -a $L
done
bash /opt/vp/build.sh > /tmp/u/build.log 2>&1; 
for s in "$@"; do (cd /repo && bash /verif/seeded/$s/demo.sh > /tmp/u/seed.$s.demo0 2>&1); echo "$s: demo_rc_clean=$?" | tee -a $L; done
