#!/bin/bash
# Builds the check and the command line tool.
set -eu
S=$1
cd "$(dirname "$0")/../.."
go build -buildvcs=false -modfile="$S/go.mod" -o "$S/check" ./cmd/c25
cp "$VERIF_REPO/go.mod" "$S/repo.mod"; cp "$VERIF_REPO/go.sum" "$S/repo.sum"
cd "$VERIF_REPO"
go build -buildvcs=false -modfile="$S/repo.mod" -o "$S/sawmill" ./cmd/sawmill
