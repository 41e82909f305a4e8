#!/bin/bash
# tryseed.sh ID [notests] : demo without and with the patch, stable tests, and the check of the property
I=$1; D=/verif/seeded/$I
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash /opt/vp/build.sh > /dev/null 2>&1
bash $D/demo.sh > /tmp/demo0.log 2>&1; echo "$I $P clean demo: $?  $(tail -1 /tmp/demo0.log)"
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.log; git checkout -q -- .; exit 1; }
bash $D/demo.sh > /tmp/demo1.log 2>&1; echo "$I $P patched demo: $?  $(tail -1 /tmp/demo1.log)"
if [ "$2" != notests ]; then
  timeout 300 bash /opt/vp/test.sh /tmp/t.json > /dev/null 2>&1; python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.json'))
print('$I tests:', [x for x in b if x not in t.get('passed', t if isinstance(t,list) else [])] or 'all stable pass')"
fi
(cd /verif; python3 check.py $P > /tmp/chk_$I.log 2>&1; echo "$I $P check: $? $(grep -c VIOLATION /tmp/chk_$I.log) violations: $(tail -1 /tmp/chk_$I.log | cut -c1-150)")
git checkout -q -- .
bash /opt/vp/build.sh > /dev/null 2>&1
