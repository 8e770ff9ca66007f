#!/bin/bash
# seedtest.sh ID...: confirms that a planted bug counts, then runs its property's check on it.
# With NOCHECK=1 only the confirmation. Leaves /repo as it was.
. /opt/vp/env.sh
rc=0
for id in "$@"; do
  D=/verif/seeded/$id
  git -C /repo checkout -q -- . || exit 1
  (cd /repo && bash "$D/demo.sh" >/tmp/seed.out 2>&1) || { echo "$id: demo FAILS on the unchanged tree"; tail -5 /tmp/seed.out; rc=1; continue; }
  git -C /repo apply "$D/patch.diff" || { echo "$id: does not apply"; rc=1; continue; }
  bash /opt/vp/build.sh >/tmp/seed.out 2>&1 || { echo "$id: does not build"; tail -5 /tmp/seed.out; rc=1; git -C /repo checkout -q -- .; continue; }
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.out 2>&1
  python3 - <<'P' || { echo "$id: breaks stable tests"; rc=1; git -C /repo checkout -q -- .; continue; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable_passing','passed','pass','stable','tests'):
            if k in x: return set(x[k])
    return set(x)
miss=names(b)-names(r)
if miss: print(miss); sys.exit(1)
P
  (cd /repo && bash "$D/demo.sh" >/tmp/seed.out 2>&1) && { echo "$id: demo PASSES with the patch"; rc=1; git -C /repo checkout -q -- .; continue; }
  echo "$id: demo: $(tail -1 /tmp/seed.out | cut -c1-200)"
  if [ -z "$NOCHECK" ]; then
    P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
    s=$(date +%s); out=$(cd /verif && bash run.sh $P quick 2>&1); c=$?; e=$(date +%s)
    if [ $c = 1 ] && grep -q "VIOLATION property=$P" <<<"$out"; then echo "$id: CAUGHT by $P in $((e-s))s: $(grep -v VIOLATION <<<"$out" | tail -2 | tr '\n' ' ' | cut -c1-300)"; else echo "$id: MISSED by $P (exit $c, $((e-s))s)"; rc=1; fi
  fi
  git -C /repo checkout -q -- .
done
exit $rc
