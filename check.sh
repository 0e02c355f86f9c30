#!/bin/bash
# ./check.sh ID [quick|thorough] -- decide one property against /repo's working tree.
cd "$(dirname "$0")/harness" || exit 2
. ../env.sh
bin=$(mktemp -d "${TMPDIR:-/tmp}/verif-run.XXXXXX") || exit 2
go build -o "$bin/runcheck" ./cmd/runcheck || { rmdir "$bin"; exit 2; }
"$bin/runcheck" "$@"
rc=$?
rm -f "$bin/runcheck"; rmdir "$bin"
exit $rc
