#!/bin/bash
# Development helper for planted bugs (not used by any check).
#   seedtool.sh start        scratch copy of /repo in /tmp/seed
#   seedtool.sh save ID      diff of /tmp/seed -> /verif/seeded/ID/patch.diff; builds, runs the
#                            stable tests and the demo with and without the change
#   seedtool.sh try ID       applies the bug to /repo, runs the check of its property, undoes it
set -u
V=$(cd "$(dirname "$0")" && pwd)
case $1 in
start)
    rm -rf /tmp/seed; cp -a /repo /tmp/seed ;;
save)
    d=$V/seeded/$2
    git -C /tmp/seed diff > "$d/patch.diff"
    [ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
    cp "$d"/patch.diff /tmp/seed.diff
    # test.sh works on /repo only: apply there, undo afterwards
    (cd /repo && git diff --quiet) || { echo "/repo is not clean"; exit 1; }
    bash /opt/vp/build.sh >/dev/null 2>&1
    cd /repo
    bash "$d/demo.sh" >/tmp/seed.demo0 2>&1; r0=$?
    git apply /tmp/seed.diff || exit 1
    bash /opt/vp/build.sh >/tmp/seed.build 2>&1; rb=$?
    bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
    m=$(python3 -c "
import json;o=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o['passed']);print([x for x in b['stable'] if x not in p])")
    bash "$d/demo.sh" >/tmp/seed.demo1 2>&1; r1=$?
    git apply -R /tmp/seed.diff
    git -C /tmp/seed checkout -q -- .
    echo "$2: build=$rb demo clean=$r0 demo bug=$r1 failing tests=$m" ;;
try)
    d=$V/seeded/$2
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo apply "$d/patch.diff" || exit 1
    o=$(VERIF_SEED=${VERIF_SEED:-1} bash "$V/check.sh" "${3:-$p}" quick 2>&1); r=$?
    git -C /repo checkout -q -- .
    echo "$2: property $p exit $r: $(echo "$o" | grep -m1 VIOLATION)" ;;
esac
