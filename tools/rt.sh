#!/bin/bash
# rebuild /repo, run its tests, compare with the stable baseline
bash /opt/vp/build.sh >/tmp/rt-build.log 2>&1 || { tail -20 /tmp/rt-build.log; exit 1; }
flock -w 600 /tmp/ftwin-tests.lock bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt-test.log 2>&1
python3 - <<'P'
import json,sys
t=json.load(open('/tmp/rt.json')); b=json.load(open('/opt/vp/BASELINE.json'))
missing=[x for x in b['stable'] if x not in t['passed']]
print('stable', len(b['stable']), 'missing', missing)
sys.exit(bool(missing))
P
