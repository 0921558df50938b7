#!/bin/bash
# run the repository's stable tests and compare with the baseline
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/rt.json'))
m=b-set(o['passed'])
print('missing:',sorted(m)[:10],len(m),'of',len(b))
P
