#!/usr/bin/env python3
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(d):
    if isinstance(d,dict):
        for k in ('passed','pass','stable','tests'):
            if k in d: 
                v=d[k]
                return set(v) if isinstance(v,list) else {t for t,s in v.items() if s in (True,'pass','passed')}
    return set(d)
pb,po=passed(b),passed(o)
print(len(pb),len(po),'missing:',sorted(pb-po)[:20]); sys.exit(1 if pb-po else 0)
