#!/bin/bash
# builds the explorer against /repo's working tree; "build.sh sched" also builds the ones whose library is instrumented
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir -p .build
cd mc
go build -o ../.build/mc.$$ .
mv ../.build/mc.$$ ../.build/mc
if [ "${1:-}" = sched ]; then
	o="$(cd ../.build && pwd)/overlay.$$"
	go run ./instr /repo "$o"
	go build -tags sched -overlay "$o/overlay.json" -o ../.build/mcsched.$$ .
	go build -race -tags sched -overlay "$o/overlay.json" -o ../.build/mcrace.$$ .
	mv ../.build/mcsched.$$ ../.build/mcsched
	mv ../.build/mcrace.$$ ../.build/mcrace
	rm -rf "$o"
fi
