#!/bin/bash
# plant.sh ID [noverify]: takes the change in /tmp/bug (a copy of /repo) as the
# planted bug ID, verifies it and runs the property's check against it.
. /opt/vp/env.sh
id=$1; d=/verif/seeded/$id; b=/tmp/bug
mkdir -p "$d"
[ -f "$d/demo.sh" ] || cp /verif/tools/plant/demo.sh "$d/"
[ -f "$d/pty.go" ] || { grep -q 'open(\|fail(' "$d/main.go" && cp /verif/tools/plant/pty.go "$d/"; }
cd $b || exit 1; trap "git -C $b checkout -q -- ." EXIT
if ! git diff --quiet; then git diff > "$d/patch.diff"; fi
git checkout -q -- .
bash "$d/demo.sh" > /tmp/demo.out 2>&1 || { echo "demo fails on the unchanged tree"; tail -5 /tmp/demo.out; exit 1; }
git apply "$d/patch.diff" || exit 1
go build ./... && GOOS=windows GOARCH=amd64 go build ./... || exit 1
go test -vet=off ./... > /tmp/test.out 2>&1 || { echo "tests fail"; grep -a FAIL /tmp/test.out | head; git checkout -q -- .; exit 1; }
if bash "$d/demo.sh" > /tmp/demo.out 2>&1; then echo "demo passes with the bug"; git checkout -q -- .; exit 1; fi
echo "demo with the bug: $(tail -1 /tmp/demo.out | cut -c1-200)"
for i in 1 2 3; do bash "$d/demo.sh" > /tmp/demo.out 2>&1 && echo "demo is flaky with the bug"; done
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
/verif/.build/bin/simctl -repo $b -verif /verif -out /tmp/bugbuild -evidence /tmp/bugev ${SECS:+-secs $SECS} check $p quick > /tmp/check.out 2>&1
rc=$?
echo "$id: $p rc=$rc $(grep -c VIOLATION /tmp/check.out) $(grep -v '^ ' /tmp/check.out | head -1 | cut -c1-250)"
git checkout -q -- .
for i in 1 2 3; do bash "$d/demo.sh" > /tmp/demo.out 2>&1 || echo "demo is flaky on the unchanged tree"; done
exit 0
