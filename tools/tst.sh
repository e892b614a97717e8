bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print('missing:', sorted(set(b['stable'])-set(o['passed'])), len(o['passed']))
P
