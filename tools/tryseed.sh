#!/bin/bash
# tryseed.sh ID [check ids...]: demo on the unchanged tree, then build, tests, demo and checks with the bug in place.
id="$1"; shift
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /opt/vp/build.sh >/tmp/try.build 2>&1 || { echo "clean build failed"; exit 2; }
(cd /repo && bash $d/demo.sh >/tmp/try.demo0 2>&1); echo "$id demo clean: $?"
git -C /repo apply $d/patch.diff || exit 2
if bash /opt/vp/build.sh >/tmp/try.build 2>&1; then
  timeout 120 bash /opt/vp/test.sh /tmp/try.tests.json >/dev/null 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/try.tests.json'))
bad=[k for k in b['stable'] if k not in set(t['passed'])]
print("$id tests broken:",len(bad),bad[:5])
P
  (cd /repo && bash $d/demo.sh >/tmp/try.demo1 2>&1); echo "$id demo with bug: $?"; tail -2 /tmp/try.demo1
  for c in ${@:-$prop}; do
    s=$(date +%s); (cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 checks/run.py $c >/tmp/try.check 2>&1); r=$?
    echo "$id check $c: exit $r in $(( $(date +%s)-s )) s"; tail -3 /tmp/try.check | cut -c1-300
  done
else echo "$id does not build"; tail -20 /tmp/try.build; fi
git -C /repo checkout -- .
