#!/bin/bash
# tools/seed.sh ID: confirm a planted bug (builds, tests pass, demo fails with it and passes without) and run its property's check
set -u
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
git diff --quiet || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/seedw/b0.log 2>&1
(bash $D/demo.sh >/tmp/seedw/d0.log 2>&1); r0=$?
git apply $D/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seedw/b1.log 2>&1; rb=$?
t=$(bash /opt/vp/test.sh /tmp/seedw/t.json | tail -1)
(timeout 300 bash $D/demo.sh >/tmp/seedw/d1.log 2>&1); r1=$?
[ -z "${NOCHECK:-}" ] && { (cd /verif && ./check.py $P quick >/tmp/seedw/c.log 2>&1); rc=$?; }
git checkout -q -- .
rm -f /repo/log0.dat
echo "$1 $P: demo clean=$r0 patched=$r1 build=$rb tests='$t' check=${rc:-skipped}"
[ "${rc:-1}" = 1 ] && grep -m1 VIOLATION /tmp/seedw/c.log
exit 0
