bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o['passed']); print('missing', [t for t in b['stable'] if t not in p][:20], len(b['stable']))
P
