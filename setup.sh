#!/bin/bash
# Builds the checker once so that the Go build cache is warm.
set -u
cd /verif/mc || exit 2
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p /verif/out
go build -o /verif/out/setup.bin ./cmd/mc || exit 2
rm -f /verif/out/setup.bin
. /verif/sched.sh
build_sched
rm -rf "$sdir"
. /verif/tick.sh
build_tick
rm -rf "$sdir"
exit 0
