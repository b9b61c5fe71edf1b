#!/bin/bash
# developer helper: run the repository's tests and compare with the stable list
bash /opt/vp/test.sh /tmp/vf_out.json >/tmp/vf_test.log 2>&1
python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/vf_out.json'))['passed'])
m=b-o
print("stable missing:", sorted(m) or "none", "passed", len(o))
PY
