#!/bin/bash
# builds the framework once, to see that it builds; every check builds what it needs again
set -e
cd "$(dirname "$0")"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off PATH=/opt/veriftools/go1.27.3/bin:$PATH
(cd gocv && GOFLAGS=-mod=mod go build -o "$t/gocv" .)
harness/build.sh "$t/h" real
verus --version >/dev/null
