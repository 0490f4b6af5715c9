#!/bin/bash
# Development helper: builds the worker with the simulation overlay. usage: dev.sh [-race]
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 3
mkdir -p /verif/.build
go run ./cmd/instr /repo /verif/.build/o || exit 3
go build "$@" -overlay /verif/.build/o/overlay.json -o /verif/.build/worker"$1" ./cmd/worker
