#!/bin/bash
# builds /verif/mc (the explorer) with a path dependency on /repo's working tree, offline;
# tools/build.sh all: with every feature of the library
here="$(cd "$(dirname "$0")/.." && pwd)"
target="$here/mc/target"
features=""
[ "$1" = all ] && target="$here/mc/target-all" && features="--features all"
log="$target/build.log"
mkdir -p "$target"
if ! CARGO_TARGET_DIR="$target" cargo build --release --offline --locked $features --manifest-path "$here/mc/Cargo.toml" >"$log" 2>&1; then
    cat "$log" >&2
    echo "build of the explorer failed" >&2
    exit 2
fi
