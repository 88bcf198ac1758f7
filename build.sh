#!/bin/bash
# Builds the simulator from /repo's working tree into $1 (a scratch directory).
# Nothing is written to /repo.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
out=$1
repo=${REPO:-/repo}
export HOME=/root
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
GO=/opt/veriftools/go1.24.13/bin/go
fail() { echo "build failed: $*" >&2; exit 2; }
mkdir -p "$out/m" || fail mkdir
(cd "$here/dst/rewrite" && "$GO" build -o "$out/rewrite" .) || fail rewriter
"$out/rewrite" -repo "$repo" -out "$out/m" -go "$GO" > "$out/rewritten" || fail rewriting
cp -a "$here/dst/simrt" "$here/dst/scen" "$here/dst/cmd" "$out/m/" || fail copy
sed 's/^module .*/module simw/' "$repo/go.mod" > "$out/m/go.mod" && cp "$repo/go.sum" "$out/m/go.sum" || fail module
(cd "$out/m" && "$GO" build -o "$out/dst" ./cmd/dst) || fail "simulated tree"
