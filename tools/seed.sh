#!/bin/bash
# seed.sh <id>: takes the edits made in the scratch copy /tmp/sr as planted bug <id>, with seeded/<id>/demo_test.go.txt and
# seeded/<id>/meta.json written before, and confirms it: builds, stable tests pass, demo fails with it and passes without.
set -u
id=$1; D=/verif/seeded/$id
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
cat > $D/demo.sh <<'X'
#!/bin/bash
# runs demo_test.go.txt as a test of the library in the current directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/o.json"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
go test -overlay "$T/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' .
X
git -C /tmp/sr diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "NO CHANGE"; exit 1; }
(cd /tmp/sr && go build ./... ) || { echo "BUILD FAILS"; exit 1; }
(cd /tmp/sr && go test -exec "env GOGC=off GOMEMLIMIT=2GiB" -json -vet=off -count=1 -timeout 10m ./... > /tmp/sr.log)
python3 /opt/vp/results.py /tmp/sr.json gojson:/tmp/sr.log > /dev/null
python3 - <<'P' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/sr.json'))['passed'])
m=sorted(b-o)
print("missing",len(m),m[:5]); sys.exit(1 if m else 0)
P
(cd /tmp/sr && bash $D/demo.sh > /tmp/sr.demo 2>&1) && { echo "DEMO DOES NOT FAIL WITH THE BUG"; exit 1; }
grep -m3 "zz_demo_test\|demo_test\|panic\|FAIL" /tmp/sr.demo
(cd /repo && bash $D/demo.sh > /tmp/sr.demo 2>&1) || { echo "DEMO FAILS ON THE UNCHANGED TREE"; cat /tmp/sr.demo; exit 1; }
git -C /tmp/sr checkout -q -- .
echo "OK $id"
