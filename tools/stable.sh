#!/bin/bash
# builds /repo and runs its tests: which stable tests fail
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo "build failed"
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
s=set(b['stable'])-set(t['passed']); print('stable tests failing:', len(s), sorted(s)[:10])"
