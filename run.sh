#!/bin/bash
# run.sh ID...: analyse the current source of /repo and decide the properties.
# run.sh --build: only build the checker.
cd "$(dirname "$0")" || exit 2
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
if [ ! -x bin/checker ] || [ -n "$(find checker -newer bin/checker -type f | head -1)" ]; then
  mkdir -p bin
  (cd checker && go build -o ../bin/checker.tmp . && mv ../bin/checker.tmp ../bin/checker) || exit 2
fi
[ "$1" = --build ] && exit 0
VERIF_ROOT="$PWD" exec bin/checker "$@"
