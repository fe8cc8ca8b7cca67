#!/bin/bash
# Compiles every check once, so that the build cache is warm and build errors show early.
set -eu
cd "$(dirname "$0")"
export HOME=/root PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
unset GOOS GOARCH GOWORK
S=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$S"' EXIT
cp harness/go.sum "$S/go.sum"
cp harness/go.mod "$S/go.mod"
cd harness
go build -buildvcs=false -modfile="$S/go.mod" -o "$S/" ./cmd/...
export VERIF_REPO=/repo
cd ..
for b in harness/cmd/*/build.sh; do
  "$b" "$S"
done
