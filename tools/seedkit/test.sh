#!/bin/bash
# test.sh ID...: each seed builds, passes the stable tests, and its demo is 0 without and nonzero with it
export DEMO_TARGET=/tmp/demo_target
cd /repo
for i in "$@"; do
  d=/verif/seeded/$i
  bash $d/demo.sh >/tmp/demo.log 2>&1; a=$?
  [ $a = 0 ] || tail -5 /tmp/demo.log
  git apply $d/patch.diff || { echo "$i: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/build.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); j=json.load(open('/tmp/t.json'))
p=j.get('passed', j); p=set(p if isinstance(p,list) else [k for k,v in p.items() if v in (True,'pass','passed','ok')])
print('pass' if b<=p else 'FAIL %s'%sorted(b-p)[:4])
P
)
  bash $d/demo.sh >/tmp/demo.log 2>&1; c=$?
  git checkout -q -- .
  echo "$i: clean demo $a, build $b, tests $t, demo with patch $c: $(grep -m1 -A1 panicked /tmp/demo.log | tail -1)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
