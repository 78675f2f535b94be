#!/bin/bash
# builds the analyser once, so that the build cache is warm
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p "$here/bin"
cd "$here/geoqlcheck"
go build -o "$here/bin/geoqlcheck" .
