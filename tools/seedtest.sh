#!/bin/bash
# seedtest.sh <id> [tier]: in a scratch copy, checks that the seeded change applies, builds, passes the stable tests, that its demo
# tells the trees apart, and whether the check of its property catches it.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"; id="$1"; d="$here/seeded/$id"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
w="$(mktemp -d /tmp/seedw.XXXXXX)"; trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cd "$w/repo"
bash "$d/demo.sh" >"$w/d0" 2>&1 && a=ok || { a=FAILS-UNPATCHED; tail -20 "$w/d0"; }
git apply "$d/patch.diff" || { echo "$id APPLY FAILED"; exit 1; }
go build . || { echo "$id BUILD FAILED"; exit 1; }
bash "$d/demo.sh" >"$w/d1" 2>&1 && b=PASSES-PATCHED || b=ok
grep -q "build failed\|FAIL.*\[setup" "$w/d1" && b="BUILD-ERR"
TZ=Australia/Sydney go test -json -vet=off -count=1 -timeout 10m . > "$w/log" 2>&1
python3 /opt/vp/results.py "$w/o.json" "gojson:$w/log" >/dev/null
m="$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$w/o.json'))
exp=set()
for x in b:
    if isinstance(b[x],list): exp|=set(map(str,b[x]))
print([e for e in b.get('passed',b.get('tests',b.get('stable',exp))) if e not in o['passed']])")"
p="$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")"
VZ_REPO="$w/repo" "$here/check.sh" "$p" "${2:-quick}" -no-evidence >"$w/c" 2>&1; rc=$?
echo "$id: demo $a/$b missing-tests $m check $p rc=$rc $(grep -c ^VIOLATION "$w/c") violations"
grep ^VIOLATION "$w/c" | head -${SEEDV:-1}
[ $rc = 1 ] || tail -${SEEDT:-2} "$w/c"
