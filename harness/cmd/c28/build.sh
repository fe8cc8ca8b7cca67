#!/bin/bash
# Builds the check, and the command line tool with one more processor (vline,
# which drops, cancels or fails depending on the line) registered in it.
set -eu
S=$1
H=$(cd "$(dirname "$0")" && pwd)
cd "$H/../.."
go build -buildvcs=false -modfile="$S/go.mod" -o "$S/check" ./cmd/c28
cp "$VERIF_REPO/go.mod" "$S/repo.mod"; cp "$VERIF_REPO/go.sum" "$S/repo.sum"
echo "{\"Replace\": {\"$VERIF_REPO/cmd/sawmill/zz_verif_vline.go\": \"$H/../../tool/vline.go.txt\"}}" > "$S/overlay.json"
cd "$VERIF_REPO"
go build -buildvcs=false -modfile="$S/repo.mod" -overlay "$S/overlay.json" -o "$S/sawmill" ./cmd/sawmill
