#!/bin/bash
# bash run.sh C01: builds the checker against /repo's working tree and runs one check.
# bash run.sh replay FILE: runs the case of a replay file again.
set -u
cd /verif/mc || exit 2
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p /verif/out
bin=/verif/out/mc.$$
sdir=/verif/out/none
trap 'rm -rf "$bin" "$sdir"' EXIT
go build -o "$bin" ./cmd/mc || exit 2
if [ "$1" = C10 ] || { [ "$1" = replay ] && grep -q '"property": "C10"' "$2"; }; then
  . /verif/sched.sh
  build_sched || exit 2
fi
if [ "$1" = C32 ] || { [ "$1" = replay ] && grep -q '"property": "C32"' "$2"; }; then
  . /verif/tick.sh
  build_tick || exit 2
fi
if [ "$1" = replay ]; then
  "$bin" replay "$2"
else
  "$bin" check "$1"
fi
