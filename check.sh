#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on the current tree of /repo.
# check.sh build: build the checker.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local GOWORK=off
if [ "$1" = build ] || [ ! -x bin/checker ] || [ -n "$(find checker -name '*.go' -newer bin/checker -print -quit)" ]; then
	mkdir -p bin
	(cd checker && go build -buildvcs=false -o ../bin/checker.new .) || exit 2
	mv -f bin/checker.new bin/checker
fi
[ "$1" = build ] && exit 0
export GOGC=200
exec ./bin/checker "$1" "${2:-quick}"
