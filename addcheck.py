#!/usr/bin/env python3
# addcheck.py ID JSON-harness-list [key=value...]: edits checks.json
import json,sys
p='/verif/checks.json'
c=json.load(open(p))
e=c['properties'].setdefault(sys.argv[1],{})
e['harnesses']=json.loads(sys.argv[2])
for kv in sys.argv[3:]:
    k,v=kv.split('=',1); e[k]=json.loads(v)
c['properties']=dict(sorted(c['properties'].items()))
json.dump(c,open(p,'w'),indent=1,ensure_ascii=False)
