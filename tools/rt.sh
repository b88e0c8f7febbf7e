# dev helper: run the repo's tests, compare with the baseline
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAIL; tail -20 /tmp/build.log; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
miss=set(b['stable'])-set(t['passed'])
print('stable',len(b['stable']),'missing',sorted(miss)[:10],'failed',t['failed'][:10])
P
