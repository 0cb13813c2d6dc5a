# build+stable tests first, then mkseed
bash /opt/vp/build.sh > /tmp/w/build.log 2>&1 || { tail -20 /tmp/w/build.log; echo BUILD FAIL; git -C /repo checkout -- .; exit 1; }
bash /opt/vp/test.sh /tmp/w/t.json > /tmp/w/test.log 2>&1 || true
python3 - <<'X' || { echo STABLE FAIL; git -C /repo checkout -- .; exit 1; }
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/w/t.json'))
p=set(t.get('passed',t.get('pass',[])))
if b-p: print("stable failing:", sorted(b-p)[:10]); sys.exit(1)
X
bash /tmp/w/mkseed.sh "$@" 2>&1 | grep -v "^  *[0-9]*:\|^ *at \|^stack back\|^note:"
