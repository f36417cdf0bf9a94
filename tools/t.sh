#!/bin/bash
# run the repository's tests, compare with the baseline
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def names(x):
    for k in ('stable','passed','tests','pass'):
        if isinstance(x,dict) and k in x: return x[k]
    return x
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()}, {k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
bs=names(b); os_=names(o)
bs=set(bs if isinstance(bs,list) else bs.keys()); os_=set(os_ if isinstance(os_,list) else [k for k,v in os_.items() if v in ('passed',True,'pass')])
print('missing', sorted(bs-os_)[:20])
P
