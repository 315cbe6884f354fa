#!/bin/sh
# development aid: build, test, commit /repo's working tree as a fix
set -e
cd /repo
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/test.json > /tmp/test.log 2>&1 || true
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/test.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed','pass','tests'):
            if k in x and isinstance(x[k],list): return set(x[k])
        return {k for k,v in x.items() if v in ('pass','passed',True)}
    return set(x)
bn,tn=names(b),names(t)
miss=bn-tn
print(len(bn),len(tn),"missing",len(miss),sorted(miss)[:10])
sys.exit(1 if miss else 0)
P
[ -n "$1" ] && git commit -qam "$1" && git log --oneline | head -1
git status --short | head -3
