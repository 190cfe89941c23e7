#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]    (VERIF_SEED, VERIF_TIER)
root=$(cd "$(dirname "$0")/.." && pwd)
cd "$root/sim" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off
tier=${2:-${VERIF_TIER:-quick}}
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/drive" ./cmd/drive || exit 2
"$bin/drive" -root "$root" -prop "$1" -tier "$tier" ${VERIF_DUR:+-dur $VERIF_DUR}
