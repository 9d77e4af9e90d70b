#!/bin/bash
# Run the repository's tests and list stable ones that do not pass.
bash /opt/vp/test.sh /tmp/stable.json >/tmp/stable.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/stable.json'))
miss=sorted(b-set(r['passed'])); print(len(b),'stable', len(miss),'not passing'); print("\n".join(map(str,miss[:40])))
P
