#!/bin/bash
# check.sh <property> [quick|thorough]: build the engine, run the check against /repo.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD VERIF_REPO=${VERIF_REPO:-/repo} VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p bin evidence replays
(cd engine && go build -o ../bin/gosym .) || exit 2
exec bin/gosym check "$1"
