#!/bin/bash
# Builds and tests /repo; says whether every stable test passes.
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print('stable ok' if not m else 'MISSING %s'%m)
sys.exit(1 if m else 0)
P
