#!/bin/bash
# build.sh OUTDIR [real]: builds the history runner against /repo's working tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
repo=${VERIF_REPO:-/repo}
mkdir -p "$out"
cp "$here/vh/go.mod" "$out/strict.mod"
printf '\nrequire github.com/gogo/protobuf v1.3.1\nreplace github.com/roy2220/plainkv => %s\n' "$repo" >> "$out/strict.mod"
cp "$out/strict.mod" "$out/real.mod"
printf 'replace github.com/roy2220/fsm => %s\n' "$here/strictfsm" >> "$out/strict.mod"
cp "$here/extra.sum" "$out/strict.sum"
cat "$repo/go.sum" >> "$out/strict.sum"; sort -u -o "$out/strict.sum" "$out/strict.sum"
cp "$out/strict.sum" "$out/real.sum"
cd "$here/vh"
GOFLAGS="-mod=mod -modfile=$out/strict.mod" go build -tags strict -o "$out/vh-strict" .
[ "$2" = real ] && GOFLAGS="-mod=mod -modfile=$out/real.mod" go build -o "$out/vh-real" .
exit 0
