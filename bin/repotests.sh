#!/bin/bash
# build and run the repository's own tests; report against the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len(o['passed']),"passed; missing:",sorted(set(b['stable'])-set(o['passed'])))
P
