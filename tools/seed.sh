#!/bin/bash
# development helper: tools/seed.sh ID PROPERTY PKG DEMO.go "needs" "breaks"
# records the edits of the scratch tree /tmp/seedwt as planted bug ID, and
# confirms that it builds, passes the stable tests, and that the demonstration
# tells the trees apart; then runs the property's check on the changed tree.
id=$1 prop=$2 pkg=$3 demo=$4
W=/tmp/seedwt D=/verif/seeded/$id
if [ -n "$demo" ]; then
  mkdir -p $D
  git -C $W diff > $D/patch.diff
  cp $demo $D/demo.go.txt
  stub=
  if [ "$pkg" = expreduce ]; then cp /verif/harness/common/rubi_stub.go.txt $D/; stub=', "$R/expreduce/rubi_snapshot/rubi_resources.go": "$d/rubi_stub.go.txt"'; fi
  cat > $D/demo.sh <<X
#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is not
d=\$(cd "\$(dirname "\$0")" && pwd)
R=\$PWD
t=\$(mktemp -d) || exit 2
trap 'rm -rf "\$t"' EXIT
cat > "\$t/ov.json" <<Y
{"Replace": {"\$R/$pkg/zz_demo_test.go": "\$d/demo.go.txt"${stub//\"\$/\"\$}}}
Y
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local timeout 250 go test -vet=off -count=1 -timeout 200s -overlay "\$t/ov.json" -run '^TestDemo\$' ./$pkg
X
  chmod +x $D/demo.sh
  python3 - "$D" "$prop" "$5" "$6" <<'X'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
X
else
  git -C $W checkout -q -- . && git -C $W apply $D/patch.diff || exit 1
fi
git -C /repo apply --check $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
(cd $W && go build ./expreduce/atoms ./expreduce/matcher ./expreduce/... >/tmp/seed_build.log 2>&1); grep -v rubi /tmp/seed_build.log | head
(cd $W && go test -vet=off -count=1 -run 'TestAllocations|TestAssignments' ./expreduce/matcher >/tmp/seed_t.log 2>&1) && echo stable-ok || { echo STABLE-FAIL; tail -5 /tmp/seed_t.log; }
(cd /repo && bash $D/demo.sh >/tmp/seed_d0.log 2>&1) && echo demo-clean-ok || { echo DEMO-CLEAN-FAILS; tail -20 /tmp/seed_d0.log; }
(cd $W && bash $D/demo.sh >/tmp/seed_d1.log 2>&1) && echo DEMO-PATCHED-PASSES || { echo demo-patched-fails:; grep -v "^---\|^FAIL\|^exit" /tmp/seed_d1.log | head -5; }
cd /verif && { echo harness-only:; VERIF_NOPROOF=1 VERIF_REPO=$W python3 check.py $prop 2>&1 | tail -4 | cut -c1-250; echo full:; VERIF_REPO=$W python3 check.py $prop 2>&1 | grep -v "^ " | tail -6| cut -c1-250; }
git -C /repo status --short | head -3
