#!/bin/bash
# Builds /repo and compares its test results with the baseline.
bash /opt/vp/build.sh >/tmp/stable.log 2>&1 || { tail -20 /tmp/stable.log; exit 1; }
bash /opt/vp/test.sh /tmp/stable.json >/dev/null 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=set(json.load(open('/tmp/stable.json'))['passed'])
print('stable missing:', sorted(b-t)); raise SystemExit(bool(b-t))"
