#!/bin/bash
# Builds the checker from the committed sources, offline.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
mkdir -p "$here/bin"
cd "$here/tool"
cp go.mod "$here/bin/go.mod"; cp go.sum "$here/bin/go.sum"
go build -modfile="$here/bin/go.mod" -o "$here/bin/gocv" .
