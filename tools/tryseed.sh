#!/bin/bash
# tryseed.sh [-q] ID... : for each planted change: demo on clean build, then patch, build+tests (-q: build only), demo, checks; undo.
# Runs in a scratch copy? No: in /repo, undone straight afterwards.
Q=; [ "$1" = -q ] && { Q=1; shift; }
cd /repo; git diff --quiet || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "clean build failed"; exit 1; }
for i in "$@"; do timeout 300 bash /verif/seeded/$i/demo.sh >/tmp/demo-$i.clean 2>&1 && echo "$i demo-clean ok" || { echo "$i DEMO FAILS ON CLEAN"; tail -5 /tmp/demo-$i.clean; }; done
for i in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git apply /verif/seeded/$i/patch.diff || { echo "$i NO APPLY"; continue; }
  if [ -n "$Q" ]; then bash /opt/vp/build.sh >/tmp/b.log 2>&1 && echo "$i builds" || echo "$i BUILD FAILS"
  else bash /opt/vp/test.sh /tmp/out-$i.json >/tmp/t-$i.log 2>&1; echo "$i tests: $(python3 /verif/tools/cmp.py /tmp/out-$i.json | tail -3 | tr '\n' ' ')"; fi
  timeout 300 bash /verif/seeded/$i/demo.sh >/tmp/demo-$i.bug 2>&1 && echo "$i DEMO PASSES WITH BUG" || echo "$i demo-bug fails (good)"
  (cd /verif; timeout 900 node run.mjs $P >/tmp/chk-$i.log 2>&1; echo "$i check $P exit $? : $(grep -m2 -E 'VIOLATION|failed obl|OK prop' /tmp/chk-$i.log | tr '\n' ' ' | cut -c1-260)")
  git checkout -q -- .
done
bash /opt/vp/build.sh >/tmp/b.log 2>&1
