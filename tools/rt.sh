#!/bin/bash
# dev: build /repo and run its stable tests
bash /opt/vp/build.sh >/tmp/rt.b 2>&1 || { tail -20 /tmp/rt.b; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/rt.json'))
m=[t for t in b if t not in o['passed']]
print("stable tests failing:", len(m), m[:10])
P
