#!/bin/bash
# check.sh <ID>              run the check of one property (VERIF_SEED, VERIF_TIER)
# check.sh <ID> <replay>     re-run one saved case
# Builds the harness against /repo's current tree, every time.
# exit 0: held, 1: violated (VIOLATION line), 2: the check itself could not run
cd "$(dirname "$0")" || exit 2
V=$PWD
. ./env.sh
B=$(mktemp -d "${TMPDIR:-/tmp}/verif-bin-XXXXXX") || exit 2
trap '/bin/rm -rf "$B"' EXIT
if ! (cd harness && go build -o "$B/harness" .) >"$B/build.log" 2>&1; then
    echo "harness does not build against /repo:" >&2
    head -50 "$B/build.log" >&2
    exit 2
fi
export VERIF_DIR=$V
if [ -z "$2" ] && "$B/harness" fuzzes "$1"; then
    # only the code under test is instrumented
    if ! (cd harness && go test -c -gcflags='github.com/ElectroUnion/egts-gate/...=-d=libfuzzer' -o "$B/fuzz" .) >"$B/build.log" 2>&1; then
        echo "fuzz targets do not build against /repo:" >&2
        head -50 "$B/build.log" >&2
        exit 2
    fi
    export FUZZ_BIN=$B/fuzz
fi
if [ -n "$2" ]; then
    "$B/harness" replay "$1" "$2"
else
    "$B/harness" check "$1"
fi
