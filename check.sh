#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the analyser when needed and decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 1
here=$(pwd)
source /opt/vp/env.sh 2>/dev/null
export GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local GOGC=400
if [ ! -x bin/skcheck ] || [ -n "$(find tool -name '*.go' -newer bin/skcheck 2>/dev/null)" ]; then
	mkdir -p bin
	if ! (cd tool && go build -o "$here/bin/skcheck.$$" . && mv "$here/bin/skcheck.$$" "$here/bin/skcheck"); then
		echo "the analyser does not build"
		exit 2
	fi
fi
[ "$1" = build ] && exit 0
exec bin/skcheck -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo /repo -dir "$here"
