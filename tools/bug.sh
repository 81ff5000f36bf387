#!/bin/bash
# tools/bug.sh ID [CHECK...]: confirms a planted bug in a scratch copy of /repo (private mount namespace) and runs its checks.
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
if [ -z "$IN_NS" ]; then
    mkdir -p /tmp/rc; c=/tmp/rc/$id.$$
    cp -a /repo "$c"
    IN_NS=1 unshare -m bash "$0" "$id" "$@" < /dev/null
    rc=$?
    case "$c" in /tmp/rc/*) rm -rf "$c";; esac
    exit $rc
fi
mount --bind /tmp/rc/$id.$PPID /repo || exit 9
cd /repo
git checkout -q -- .
B=$V/seeded/$id
say() { echo "[$id] $*"; }
bash /opt/vp/build.sh >/tmp/rc/$id.log 2>&1 || { say "clean build failed"; exit 9; }
D=$(mktemp -d); cp "$B"/*.* "$D"; rm -f "$D"/patch.diff "$D"/meta.json
timeout 300 bash "$D/demo.sh" >/tmp/rc/$id.demo0 2>&1; d0=$?
git apply "$B/patch.diff" || { say "patch does not apply"; exit 9; }
bash /opt/vp/build.sh >/tmp/rc/$id.log 2>&1 || { say "patched build failed"; tail -20 /tmp/rc/$id.log; exit 9; }
timeout 300 bash "$D/demo.sh" >/tmp/rc/$id.demo1 2>&1; d1=$?
bash /opt/vp/test.sh /tmp/rc/$id.json >>/tmp/rc/$id.log 2>&1
m=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/rc/$id.json'))
print([x for x in b['stable'] if x not in o['passed']])")
say "demo clean=$d0 patched=$d1 missing tests=$m"
[ $d0 = 0 ] && [ $d1 != 0 ] && [ "$m" = "[]" ] && say COUNTS || { say "DOES NOT COUNT"; for f in /tmp/rc/$id.demo0 /tmp/rc/$id.demo1; do tail -n 5 $f; done; }
prop=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
for c in ${@:-$prop}; do
    [ -f $V/mc/checks/$c.cpp ] || { say "no check $c"; continue; }
    out=$(cd $V && timeout 900 ./run.sh $c quick 2>&1); rc=$?
    say "check $c rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
    [ $rc = 1 ] && say "CAUGHT by $c" || say "NOT caught by $c"
    [ $rc -gt 1 ] && echo "$out" | tail -5
done
case "$D" in /tmp/tmp.*) rm -rf "$D";; esac
exit 0
