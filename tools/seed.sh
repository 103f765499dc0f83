#!/bin/bash
# tools/seed.sh ID [--tests]: confirm a planted bug in a scratch copy of /repo:
# the demonstration passes without the patch, fails with it, and (--tests) the
# package tests still pass with it.
id=$1; S=/verif/seeded/$id
W=$(mktemp -d /tmp/seedXXXXXX); trap 'rm -rf "$W"' EXIT
export GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" GOPATH=/root/go GOWORK=off PATH=/opt/veriftools/go1.24.13/bin:$PATH
cp -a /repo "$W/repo"; cd "$W/repo" || exit 1; git checkout -q -- .
bash "$S/demo.sh" >"$W/a" 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -20 "$W/a"; exit 1; }
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
if bash "$S/demo.sh" >"$W/a" 2>&1; then echo "$id: demo passes with the patch"; exit 1; fi
grep -q -- "--- FAIL" "$W/a" || { echo "$id: demo failed without a FAIL line"; tail -20 "$W/a"; }
if [ "$2" = --tests ]; then
  go test -vet=off -count=1 -json ./proxy/... 2>/dev/null > "$W/t.json"
  python3 - "$W/t.json" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
names=json.dumps(base)
bad=[]
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except ValueError: continue
    if e.get('Action')=='fail' and e.get('Test') and e['Test'] in names: bad.append(e['Test'])
print('test failures:',bad)
P
fi
echo "$id: ok"
