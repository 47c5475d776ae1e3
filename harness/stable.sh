#!/bin/bash
# development helper: the repository's stable tests still pass?
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/stable.json >/tmp/stable.log 2>&1
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=set(json.load(open('/tmp/stable.json'))['passed'])
print('stable', len(b), 'missing', [x for x in b if x not in o])"
