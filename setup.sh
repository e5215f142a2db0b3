#!/bin/bash
# Builds the checks once, so that a broken tree shows early (each check builds again),
# and compares the reference parser with encoding/json.
cd "$(dirname "$0")/harness" || exit 2
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
build=$(mktemp -d) || exit 2
trap 'rm -rf "$build"' EXIT
go vet ./engine ./refjson ./gen && go build -o "$build/jincheck" ./cmd/jincheck && "$build/jincheck" -selftest 150000
