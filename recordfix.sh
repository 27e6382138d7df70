#!/bin/sh
# recordfix.sh PROPERTY "commit subject (without fix:)": run tests, commit /repo, record in known-findings
set -e
cd /repo
gofmt -l $(git diff --name-only) 
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print('tests', str(o)[:300])
P
git commit -qam "fix: $2"
h=$(git rev-parse --short HEAD)
for p in $(echo $1 | tr ',' ' '); do echo "fixed: property=$p $h $2" >> /verif/known-findings.txt; done
git log --oneline | head -1; git status --short | head
