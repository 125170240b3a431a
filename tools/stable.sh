#!/bin/bash
# developer helper: build + stable tests of /repo (or a copy is not supported by test.sh)
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/out.json'))
miss=b-set(o['passed']); print("stable missing:",sorted(miss)[:10], len(o['passed']))
sys.exit(1 if miss else 0)
P
