#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the analyser from /verif/checker if
# needed and decides one property on the current source of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
bin="$here/bin/spagoverif"
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -newer "$bin" -name '*.go' -print -quit)" ]; then
	mkdir -p "$here/bin"
	if ! (cd "$here/checker" && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin"); then
		mkdir -p "$here/evidence"
		echo "the analyser does not build" >"$here/evidence/$prop.violations.txt"
		echo "VIOLATION property=$prop replay=$here/evidence/$prop.violations.txt"
		exit 1
	fi
fi
[ "$prop" = build ] && exit 0
cd "$here" || exit 1
exec "$bin" -property "$prop" -tier "$tier" -repo /repo -verif "$here"
