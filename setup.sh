#!/bin/bash
# builds both flavours of the monitors once, so that checks only recompile foca
cd "$(dirname "$0")/harness" || exit 1
mkdir -p target ../evidence
cargo build --offline --release && cargo build --offline --profile checked --features unstable
