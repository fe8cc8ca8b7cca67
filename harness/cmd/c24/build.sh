#!/bin/bash
# Builds the check, the C library (with one more processor, vline, registered in
# it) with a driver that loads it, and the WebAssembly module.
set -eu
S=$1
H=$(cd "$(dirname "$0")" && pwd)
cd "$H/../.."
go build -buildvcs=false -modfile="$S/go.mod" -o "$S/check" ./cmd/c24
cp "$VERIF_REPO/go.mod" "$S/repo.mod"; cp "$VERIF_REPO/go.sum" "$S/repo.sum"
echo "{\"Replace\": {\"$VERIF_REPO/examples/c/cshared/zz_verif_vline.go\": \"$H/vline.go.txt\"}}" > "$S/overlay.json"
cp "$H/driver.c.txt" "$S/driver.c"
cp "$H/driver.js.txt" "$S/driver.js"
cd "$VERIF_REPO"
go build -buildvcs=false -modfile="$S/repo.mod" -overlay "$S/overlay.json" -buildmode=c-shared -o "$S/pipeline.so" ./examples/c/cshared
GOOS=js GOARCH=wasm CGO_ENABLED=0 go build -buildvcs=false -modfile="$S/repo.mod" -o "$S/pipeline.wasm" ./examples/wasm
R=$(go env GOROOT)
for f in "$R/lib/wasm/wasm_exec.js" "$R/misc/wasm/wasm_exec.js"; do
  if [ -f "$f" ]; then cp "$f" "$S/wasm_exec.js"; break; fi
done
gcc -O1 -o "$S/driver" "$S/driver.c" "$S/pipeline.so" -Wl,-rpath,"$S"
