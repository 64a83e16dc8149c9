#!/bin/bash
# usage: run.sh CHECK-ID [quick|thorough]      or      run.sh -replay FILE
# Builds the harness against the current tree of /repo (hooks on) and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOTELEMETRY=off
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
tmp=$(mktemp -d /tmp/vxbuild-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
trap 'exit 2' INT TERM HUP
id=$1
if [ "$id" = -replay ]; then
	id=$(sed -n 's/.*"Property": "\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
fi
race=
export CGO_ENABLED=0
case $id in
C12 | C13)
	race=-race
	export CGO_ENABLED=1
	;;
esac
# the harness module, with its paths made absolute, so that nothing here is written to
cp "$here"/harness/go.mod "$tmp"/go.mod && cp "$here"/harness/go.sum "$tmp"/go.sum || exit 2
cd "$here"/harness || exit 2
build() { go build $race -modfile="$tmp"/go.mod "$@" -o "$tmp"/vx . ; }
if ! build -tags verif 2>"$tmp"/err; then
	echo "note: build with hooks failed, trying without"
	head -5 "$tmp"/err
	if ! build; then
		echo "cannot build the harness against /repo" >&2
		exit 2
	fi
fi
if [ "$id" = C25 ]; then
	(cd /repo && CGO_ENABLED=0 GOFLAGS=-mod=mod go build -o "$tmp"/xbnf-cli ./main) || { echo "cannot build the command line tool" >&2; exit 2; }
	export VERIF_CLI=$tmp/xbnf-cli
fi
if [ "$1" = -replay ]; then
	"$tmp"/vx -replay "$2"
	exit $?
fi
"$tmp"/vx -check "$id" -tier "${2:-quick}" -verif "$here"
exit $?
