#!/bin/bash
# Builds the check and both generators.
set -eu
S=$1
cd "$(dirname "$0")/../.."
go build -buildvcs=false -modfile="$S/go.mod" -o "$S/check" ./cmd/c23
cp "$VERIF_REPO/go.mod" "$S/repo.mod"; cp "$VERIF_REPO/go.sum" "$S/repo.sum"
cd "$VERIF_REPO"
go build -buildvcs=false -modfile="$S/repo.mod" -o "$S/gen" ./pkg/processor/generate
go build -buildvcs=false -modfile="$S/repo.mod" -o "$S/gendocs" ./docs/generate
