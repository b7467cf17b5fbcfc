#!/bin/bash
# trybug.sh ID: confirms /verif/seeded/ID in /repo (demo quiet before, patch applies, builds, stable tests pass, demo fails), then runs the property's check
V=/verif; D=$V/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain -uno)" ] || { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo "clean build failed"; exit 2; }
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/tb.demo0 2>&1); r0=$?
git apply $D/patch.diff || { echo "does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.log 2>&1
miss=$(python3 -c "
import json; b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); print(sorted(b-set(json.load(open('/tmp/tb.json'))['passed'])))")
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/tb.demo1 2>&1); r1=$?
cd $V; t=$(date +%s); ./check $P quick > /tmp/tb.check 2>&1; c=$?
v=$(grep -c "^VIOLATION property=$P " /tmp/tb.check)
echo "$1 property=$P demo-clean=$r0 demo-patched=$r1 tests-lost=$miss check-exit=$c violations=$v $(( $(date +%s) - t ))s"
grep -m1 "  what:" /tmp/tb.check | cut -c1-300
