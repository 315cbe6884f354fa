#!/bin/bash
# development aid: plant.sh ID  -- /repo's working tree holds the bug; /verif/seeded/ID has demo.sh and meta.json.
# Records patch.diff, confirms build + tests + demo fails, reverts, confirms the demo passes.
ID=$1; D=/verif/seeded/$ID
cd /repo || exit 1
if [ -n "$(git diff)" ]; then git diff > $D/patch.diff; else git apply $D/patch.diff || exit 1; fi
trap 'git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { echo BUILD FAILS; tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/test.json > /tmp/test.log 2>&1
python3 - <<'P' || { echo TESTS FAIL; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/test.json'))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if k in x and isinstance(x[k],list): return set(x[k])
    return {k for k,v in x.items() if v in ('pass','passed',True)}
m=names(b)-names(t)
if m: print("missing",sorted(m)[:5]); sys.exit(1)
P
timeout 300 bash $D/demo.sh > /tmp/demo.out 2>&1; rc1=$?
git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $D/demo.sh > /tmp/demo2.out 2>&1; rc2=$?
echo "$ID: demo with bug rc=$rc1, without rc=$rc2"
[ $rc1 != 0 ] && [ $rc2 = 0 ] || { cat /tmp/demo.out /tmp/demo2.out; exit 1; }
