#!/bin/sh
# check.sh ID: decides property ID on the current tree of /repo.
# check.sh build: only builds the analyzer.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 GOWORK=off
[ -n "$HOME" ] || export HOME=/root
mkdir -p bin evidence || exit 2
if ! (cd analyzer && go1.26 build -o ../bin/aptverif .) >bin/build.log 2>&1; then
	cat bin/build.log >&2
	exit 2
fi
[ "$1" = build ] && exit 0
exec bin/aptverif -property "$1" -repo "${APTVERIF_REPO:-/repo}" -verif "$PWD"
