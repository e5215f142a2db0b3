#!/bin/bash
# replay.sh FILE: build the checks against /repo's working tree and run one replay file.
# Exit 1 and "fails:" if the case still breaks its property, 0 and "holds" if not.
set -u
root=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1") || exit 2
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
build=$(mktemp -d) || exit 2
trap 'rm -rf "$build"' EXIT
flags=()
grep -q '"property": "C12"' "$file" && flags=(-race)
(cd "$root/harness" && go build "${flags[@]}" -o "$build/jincheck" ./cmd/jincheck) || exit 2
export GORACE="halt_on_error=1 exitcode=66"
"$build/jincheck" -replay "$file"
