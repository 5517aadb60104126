#!/bin/bash
# replay.sh <replay file>: rebuilds against /repo and re-runs exactly that case
cd "$(dirname "$0")/harness" || exit 2
f=$(realpath "$1")
if head -1 "$f" | grep -q 'build=checked'; then
    cargo build --offline --quiet --profile checked --features unstable && exec ./target/checked/fmon replay "$f"
else
    cargo build --offline --quiet --release && exec ./target/release/fmon replay "$f"
fi
