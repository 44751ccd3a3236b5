#!/bin/bash
# Warms the Go build cache so that each check only links the checker.
set -u
cd "$(dirname "$0")"
export HOME="${HOME:-/root}" GOROOT=/opt/veriftools/go1.26.10
export PATH="$GOROOT/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly CGO_ENABLED=0
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
tmp="$(mktemp -d)" && trap 'rm -rf "$tmp"' EXIT
cd checker && go build -trimpath -buildvcs=false -o "$tmp/phcheck" .
