#!/bin/bash
# check.sh PROPERTY TIER: builds the engine from /verif/engine, then decides the property on /repo's current tree.
# exit 0: held on everything explored; 1: VIOLATION; anything else: no verdict.
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
tier=${2:-${VERIF_TIER:-quick}}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/engine" && CGO_ENABLED=0 go build -o "$tmp/gosym" .) || exit 2
"$tmp/gosym" -prop "$1" -tier "$tier" -verif "$here" -repo /repo "${@:3}"
