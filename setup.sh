#!/bin/bash
# Builds everything once, so that a missing tool shows before any check runs.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p "$here/.build" "$here/evidence"
tmp=$(mktemp -d "$here/.build/setup.XXXXXX")
trap 'rm -rf "$tmp"' EXIT
(cd "$here/sim/instr" && go build -o "$tmp/instr" .)
"$tmp/instr" -repo "${VERIF_REPO:-/repo}" -out "$tmp/src" -simrt "$here/sim/simrt" -harness "$here/sim/harness"
cd "$tmp/src"
go build -o "$tmp/sim" ./zzsim
mod=$(awk '$1=="module"{print $2}' go.mod)
go build -race "-gcflags=$mod/zzsimrt/...=-race=false" -o "$tmp/simrace" ./zzsim
