#!/bin/bash
# usage: replay.sh FILE    exit 1 if the violation occurs again, 0 if not
root=$(cd "$(dirname "$0")/.." && pwd)
f=$(realpath "$1") || exit 2
cd "$root/sim" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/drive" ./cmd/drive || exit 2
"$bin/drive" -root "$root" -replay "$f"
