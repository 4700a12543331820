#!/bin/bash
# Build /repo and run its stable tests.
bash /opt/vp/build.sh >/tmp/stable.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/stable.log; exit 1; }
bash /opt/vp/test.sh /tmp/stable.json >>/tmp/stable.log 2>&1
python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/stable.json'));m=b-set(o['passed']);print('stable ok' if not m else 'FAIL %s'%m)"
