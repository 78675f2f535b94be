#!/bin/bash
# usage: check.sh PROPERTY: builds the analyser and decides the property on
# /repo's current source.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off
bin="$here/bin/geoqlcheck"
mkdir -p "$here/bin"
tmp="$(mktemp "$here/bin/build.XXXXXX")"
( cd "$here/geoqlcheck" && go build -o "$tmp" . ) || { rm -f "$tmp"; echo "cannot build the analyser" >&2; exit 2; }
mv -f "$tmp" "$bin.$$"
"$bin.$$" -prop "$1" -repo /repo -verif "$(dirname "$here")"
rc=$?
rm -f "$bin.$$"
exit $rc
