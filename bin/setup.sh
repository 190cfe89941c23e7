#!/bin/bash
# The checks build everything themselves; this only shows that it builds.
root=$(cd "$(dirname "$0")/.." && pwd)
cd "$root/sim" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off
go vet ./plan ./rt ./model ./gen ./cmd/drive ./instr
