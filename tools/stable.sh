#!/bin/bash
# build /repo and compare its tests with the baseline
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/tests.json > /tmp/test.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/tests.json'))
miss=[x for x in b['stable'] if x not in t['passed']]
print("stable %d, not passing: %s" % (len(b['stable']), miss))
PY
