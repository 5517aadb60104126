#!/bin/bash
# check.sh <property> [driver option]   -- VERIF_SEED / VERIF_TIER select seed and depth
# Rebuilds the monitors against /repo's current working tree and runs them.
cd "$(dirname "$0")/harness" || exit 2
export FMON_ROOT="${FMON_ROOT:-$(cd .. && pwd)}" CARGO_TERM_COLOR=never
prop="$1"
build() { # profile-args... ; foca is always recompiled, whatever its timestamps say
    local out
    out=$(cargo build --offline --quiet "$@" 2>&1) || {
        echo "$out" | tail -40
        echo "ERROR: the harness does not build against /repo"
        exit 2
    }
}
fresh() { rm -rf "target/$1/.fingerprint/"foca-* ; }
mkdir -p target
fresh release
build --release
if [ "$prop" = C06 ]; then
    fresh checked
    build --profile checked --features unstable
    export FMON_ALSO="$PWD/target/checked/fmon"
fi
exec ./target/release/fmon "$@"
