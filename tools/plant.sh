#!/bin/bash
# plant.sh ID PROPERTY PKG DEMO_TEST.go "needs" "what breaks": turns the uncommitted change in /tmp/mut into
# /verif/seeded/ID after confirming that it builds, passes the stable tests, and that the demo tells it apart.
set -u
id=$1 prop=$2 pkg=$3 test=$4 needs=$5 what=$6
d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/mut diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change in /tmp/mut"; exit 1; }
cp $test $d/demo_test.go
cat > $d/demo.sh <<X
#!/bin/bash
# exit 0 when the property holds on the inputs of demo_test.go
here="\$(cd "\$(dirname "\$0")" && pwd)"
export HOME="\${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
command -v go >/dev/null || export PATH="\$PATH:/usr/local/bin:/opt/veriftools/go1.27.3/bin"
o="\$(mktemp)"
trap 'rm -f "\$o"' EXIT
printf '{"Replace": {"%s/$pkg/zz_demo_test.go": "%s/demo_test.go"}}' "\$PWD" "\$here" > "\$o"
go test -overlay "\$o" -run '^TestDemo' -count=1 -vet=off ./$pkg
X
chmod +x $d/demo.sh
python3 - "$d/meta.json" "$prop" "$needs" "$what" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
PY
. /opt/vp/env.sh
cd /tmp/mut || exit 1
go build ./... || { echo BUILD FAILS; exit 1; }
bash $d/demo.sh >/tmp/demo.out 2>&1 && { echo "DEMO PASSES WITH THE PATCH"; exit 1; }
grep -q "build failed\|setup failed" /tmp/demo.out && { cat /tmp/demo.out; exit 1; }
bash /verif/tools/test_copy.sh /tmp/mut.res.json >/dev/null 2>&1
python3 - <<'PY' || { echo "STABLE TESTS FAIL"; exit 1; }
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=set(json.load(open('/tmp/mut.res.json'))['passed'])
m=sorted(b-r)
print("stable tests failing:",len(m),m[:5])
sys.exit(1 if m else 0)
PY
cd ${PLANT_BASE:-/repo} && bash $d/demo.sh >/tmp/demo.out 2>&1 || { echo "DEMO FAILS ON THE CLEAN TREE"; tail -20 /tmp/demo.out; exit 1; }
git -C ${PLANT_BASE:-/repo} apply --check $d/patch.diff || exit 1
cd /verif && VERIF_REPO=/tmp/mut ./check.sh $prop > /tmp/check.out 2>&1; rc=$?
echo "check $prop rc=$rc: $(grep VIOLATION /tmp/check.out)"; grep "failed obligation\|failing input" /tmp/check.out | head -4 | cut -c1-200
git -C /tmp/mut checkout -q .
