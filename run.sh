#!/bin/bash
# usage: run.sh <ID> <quick|thorough> [flags for the check, e.g. -replay FILE]
# Builds the check of property <ID> from /repo's working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 3
VERIF=$PWD
ID=$1; TIER=$2; shift 2
REPO=${VERIF_REPO:-/repo}
export HOME=/root PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1 VERIF_REPO=$REPO VERIF_TIER=$TIER
unset GOOS GOARCH GOWORK
S=$(mktemp -d /tmp/verif-run-XXXXXX) || exit 3
case $S in /tmp/verif-run-*) ;; *) exit 3;; esac
trap 'chmod -R u+rwx "$S" 2>/dev/null; rm -rf "$S"' EXIT
export VERIF_SCRATCH=$S TMPDIR=$S
cp harness/go.sum "$S/go.sum" || exit 3
sed "s#=> /repo#=> $REPO#" harness/go.mod > "$S/go.mod" || exit 3
lc=$(echo "$ID" | tr A-Z a-z)
if [ -x "harness/cmd/$lc/build.sh" ]; then
  "harness/cmd/$lc/build.sh" "$S" > "$S/build.log" 2>&1
else
  (cd harness && go build -buildvcs=false -modfile="$S/go.mod" -o "$S/check" "./cmd/$lc") > "$S/build.log" 2>&1
fi
if [ $? -ne 0 ]; then cat "$S/build.log"; echo "build of check $ID failed"; exit 3; fi
"$S/check" -tier "$TIER" -verif "$VERIF" "$@"
exit $?
