#!/bin/bash
# developer helper: build and run the repository's own tests, compare with the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in o['passed']]
print("stable",len(b['stable']),"missing",m)
P
