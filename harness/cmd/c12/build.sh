#!/bin/bash
# Builds the check with the race detector from instrumented copies of the
# library's sources (an overlay; /repo stays as it is).
set -eu
S=$1
cd "$(dirname "$0")/../.."
mkdir -p "$S/inst"
go build -buildvcs=false -modfile="$S/go.mod" -o "$S/instr" ./instr
"$S/instr" "$VERIF_REPO" "$S/inst" "$S/inst.json"
go build -buildvcs=false -modfile="$S/go.mod" -race -gcflags=all=-d=checkptr=0 -tags verifinstr -overlay "$S/inst.json" -o "$S/check" ./cmd/c12
