#!/bin/bash
# run.sh PROPERTY...: build the checker and decide the given properties for the tree in /repo.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export GOROOT=/opt/veriftools/go1.26.10
export PATH="$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly CGO_ENABLED=0
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/checker" && go build -trimpath -buildvcs=false -o "$tmp/phcheck" .) || { echo "cannot build the checker"; exit 2; }
"$tmp/phcheck" -property "$1" -repo "${REPO:-/repo}" -verif "$here"
exit $?
