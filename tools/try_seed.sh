#!/bin/bash
# tools/try_seed.sh ID...: takes planted bugs through what vcheck asks of them (development tool).
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  r="$id $prop:"
  if bash /opt/vp/build.sh > /tmp/seed.build 2>&1; then
    bash /opt/vp/test.sh /tmp/seed.json > /dev/null 2>&1
    r="$r tests=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
def names(x,k):
    v=x.get(k,x); return set(v if isinstance(v,list) else v.keys())
bp=names(b,'passed') if 'passed' in b else names(b,'stable')
op=names(o,'passed')
print('ok' if bp<=op else 'LOST:'+','.join(sorted(bp-op))[:200])
P
)"
    bash "$d/demo.sh" > /tmp/seed.demo 2>&1; rc=$?
    r="$r demo=$rc"; [ $rc = 0 ] && r="$r(SHOULD-FAIL)"
    grep -q "^error" /tmp/seed.demo && ! grep -q "test result" /tmp/seed.demo && r="$r(DEMO-DOES-NOT-COMPILE)"
    if [ -z "$NOCHECK" ]; then
      VERIF_SEED=1 VERIF_TIER=quick ./run.sh $prop quick > /tmp/seed.check 2>&1; rc=$?
      r="$r check=$rc"; grep -q "VIOLATION property=$prop" /tmp/seed.check && r="$r CAUGHT" || r="$r MISSED"
    fi
  else r="$r DOES-NOT-BUILD"; fi
  git -C /repo checkout -q -- .
  bash /opt/vp/build.sh > /tmp/seed.build 2>&1
  bash "$d/demo.sh" > /tmp/seed.demo0 2>&1; rc=$?
  r="$r clean-demo=$rc"; [ $rc = 0 ] || r="$r(SHOULD-PASS)"
  echo "$r"
done
