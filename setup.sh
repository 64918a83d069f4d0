#!/bin/bash
# Warms the Go build cache, so that each check only rebuilds what changed.
cd "$(dirname "$0")" || exit 1
. ./env.sh
d=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup-XXXXXX") || exit 1
trap '/bin/rm -rf "$d"' EXIT
(cd harness && go build -o "$d/h" .) || exit 1
(cd harness && go test -c -gcflags='github.com/ElectroUnion/egts-gate/...=-d=libfuzzer' -o "$d/f" .) || exit 1
(cd /repo && go build -o "$d/" ./cli/...) || exit 1
