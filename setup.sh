#!/bin/bash
# Warms the build cache; the checks build for themselves.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOTELEMETRY=off
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
tmp=$(mktemp -d /tmp/vxsetup-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here"/harness/go.mod "$here"/harness/go.sum "$tmp" || exit 2
cd "$here"/harness || exit 2
CGO_ENABLED=0 go build -modfile="$tmp"/go.mod -tags verif -o "$tmp"/vx . || exit 2
CGO_ENABLED=1 go build -race -modfile="$tmp"/go.mod -tags verif -o "$tmp"/vxr . || exit 2
exit 0
