#!/bin/bash
# seed.sh ID PROPERTY: (1) takes the edits made in /tmp/sw/repo as the patch, (2) confirms the seeded bug
# usage: edit /tmp/sw/repo (a copy of /repo), put main.go in /verif/seeded/ID, then run this
set -e
ID=$1; PROP=$2; D=/verif/seeded/$ID; W=/tmp/sw/repo
mkdir -p $D
if [ -n "$(git -C $W diff)" ]; then git -C $W diff > $D/patch.diff; else git -C $W apply $D/patch.diff; fi
cat > $D/demo.sh <<'X'
#!/bin/sh
# runs main.go against the repository in the current directory: exit 0 when the property holds
R=$(pwd); D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp "$D"/main.go "$T"/
printf 'module demo\n\ngo 1.20\n\nrequire github.com/miniLCT/gosb v0.0.0\n\nreplace github.com/miniLCT/gosb => %s\n' "$R" > "$T/go.mod"
cd "$T" && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off go run $(cat "$D/flags" 2>/dev/null) .
X
chmod +x $D/demo.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
(cd /repo && bash $D/demo.sh > /tmp/sw/demo0.txt 2>&1) && echo "demo passes on the unchanged tree" || { echo "DEMO FAILS UNCHANGED"; cat /tmp/sw/demo0.txt; }
(cd $W && timeout 300 bash $D/demo.sh > /tmp/sw/demo1.txt 2>&1) && echo "DEMO PASSES WITH PATCH" || { echo "demo fails with the patch: $(tail -1 /tmp/sw/demo1.txt)"; }
(cd $W && go build ./... && go vet ./... >/dev/null 2>&1; go test ./... 2>&1 | grep -v '^ok\|no test files' | head -20) || true
[ -f $D/meta.json ] || echo "NO META"
GOSB_REPO=$W /verif/check.sh $PROP quick | grep -v '^C' | cut -c1-300
git -C $W checkout -q -- .
