#!/bin/bash
# stable.sh  runs the stable tests in /tmp/seedrepo, prints those which fail
cd /tmp/seedrepo; bash /tmp/svp/build.sh >/tmp/svp/build.log 2>&1 || { echo BUILD FAIL; tail /tmp/svp/build.log; exit 1; }
bash /tmp/svp/test.sh /tmp/svp/o.json >/tmp/svp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/tmp/svp/BASELINE.json')); o=json.load(open('/tmp/svp/o.json'))
def flat(x):
    if isinstance(x,dict):
        for k in('stable','passed','pass','stable_passing','tests'):
            if k in x: return x[k]
    return x
sb=flat(b); so=flat(o)
print('missing:',sorted(set(sb)-set(so)))
P
