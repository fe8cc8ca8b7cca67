#!/bin/bash
# usage: tryseed.sh SEED_DIR [CHECK...]   Confirms one planted bug in a scratch
# copy: applies, builds, passes the tests, the demonstration passes without and
# fails with it; then runs the checks (quick) against the copy.
set -u
D=$(cd "$1" && pwd); shift
T=$(mktemp -d /tmp/tryseed-XXXXXX); trap 'chmod -R u+rwx "$T"; rm -rf "$T"' EXIT
. /opt/vp/env.sh
cp -a /repo "$T/repo"; mkdir "$T/demo"; cp -a "$D"/. "$T/demo"; rm -f "$T"/demo/*.diff "$T/demo/meta.json"
(cd "$T/repo" && bash "$T/demo/demo.sh" > "$T/d0.log" 2>&1) || { echo "DEMO FAILS UNPATCHED"; tail -20 "$T/d0.log"; exit 2; }
git -C "$T/repo" apply "$D/patch.diff" || { echo "DOES NOT APPLY"; exit 2; }
(cd "$T/repo" && go build ./... && go vet ./pkg/... ) > "$T/b.log" 2>&1 || { echo "BUILD"; tail "$T/b.log"; exit 2; }
(cd "$T/repo" && go test ./... ) > "$T/t.log" 2>&1 || { echo "TESTS FAIL"; grep -v "no test files" "$T/t.log" | tail -20; exit 2; }
(cd "$T/repo" && bash "$T/demo/demo.sh" > "$T/d1.log" 2>&1) && { echo "DEMO PASSES PATCHED"; exit 2; }
tail -3 "$T/d1.log"
git -C "$T/repo" status --short | head
P=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$D/meta.json")
for c in ${*:-$P}; do
  VERIF_REPO=$T/repo /verif/run.sh $c quick > "$T/c.log" 2>&1; rc=$?
  echo "$(basename "$D") check $c exit $rc $(grep -o 'VIOLATION property=.*' "$T/c.log" | head -1)"
  [ $rc = 3 ] && tail -5 "$T/c.log"
done
