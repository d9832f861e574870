#!/bin/bash
# check.sh <property>: builds the explorer against /repo's working tree and runs what decides the property.
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMCHECK=1
mkdir -p .build
if [ "$1" = C23 ]; then what=sched; else what=; fi
bash ./build.sh $what || { echo "build failed"; exit 2; }
exec .build/mc run "$1"
