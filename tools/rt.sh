#!/bin/bash
# run the repo's tests and list baseline tests that do not pass
REPO=${REPO:-/repo}
sed "s#/repo#$REPO#g" /opt/vp/test.sh > /tmp/rt.test.sh
(. /opt/vp/env.sh; cd $REPO && go build ./... && go vet ./... >/dev/null 2>&1; go build ./...) >/tmp/rt.b 2>&1 || { tail -20 /tmp/rt.b; exit 1; }
bash /tmp/rt.test.sh /tmp/rt.json >/tmp/rt.t 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/rt.json'))
def names(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: 
            v=x[k]; return set(v if isinstance(v,list) else v.keys())
    return set()
B,O=names(b),names(o)
print('baseline',len(B),'passed',len(O),'missing',sorted(B-O)[:20])
P
