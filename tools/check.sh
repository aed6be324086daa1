#!/bin/bash
# tools/check.sh <property> <quick|thorough>: build the explorer against /repo's current tree, run one check.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build failure, internal error).
here="$(cd "$(dirname "$0")/.." && pwd)"
export MC_ROOT="$here"
target=target
# the log is explored with every feature of the library, crashes and concurrent logs with the default ones
[ "$1" = C16 ] && target=target-all
"$here/tools/build.sh" "${target#target-}" || exit 2
exec "$here/mc/$target/release/mc" check "$1" "${2:-${VERIF_TIER:-quick}}"
