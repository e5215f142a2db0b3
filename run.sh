#!/bin/bash
# run.sh PROPERTY TIER: build the checks against /repo's working tree and run one.
# Exit 0: held; 1 with a VIOLATION line: broken; anything else: no answer.
set -u
root=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
build=$(mktemp -d) || exit 2
trap 'rm -rf "$build"' EXIT
flags=()
[ "$prop" = C12 ] && flags=(-race)
if ! (cd "$root/harness" && go build "${flags[@]}" -o "$build/jincheck" ./cmd/jincheck) >"$build/log" 2>&1; then
	echo "run.sh: the checks do not build against /repo" >&2
	head -c 4000 "$build/log" >&2
	exit 2
fi
export TMPDIR="$build"
"$build/jincheck" -prop "$prop" -tier "$tier" -root "$root"
rc=$?
[ "$rc" = 0 ] && [ "$tier" = thorough ] && [ "$prop" != C12 ] || exit "$rc"
# then let Go's coverage-guided fuzzer drive the same generators
if ! (cd "$root/harness" && go test -c -fuzz=FuzzProp -o "$build/fuzz" ./fuzz) >"$build/log" 2>&1; then
	echo "run.sh: the fuzz target does not build against /repo" >&2
	head -c 4000 "$build/log" >&2
	exit 2
fi
(cd "$build" && VERIF_PROP="$prop" timeout -k 10 "$((${VERIF_FUZZ_S:-90} + 60))" ./fuzz -test.run='^$' -test.fuzz=FuzzProp -test.parallel=8 \
	-test.fuzztime="${VERIF_FUZZ_S:-90}s" -test.fuzzminimizetime=5s -test.fuzzcachedir="$build/cache") >"$build/fuzz.log" 2>&1
"$build/jincheck" -prop "$prop" -tier "$tier" -root "$root" -fuzzed "$build"
