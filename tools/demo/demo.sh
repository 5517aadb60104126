#!/bin/bash
# Runs demo.rs against the foca in the current directory.
# exit 0: behaves as the property says; anything else: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$here/common.rs" "$t/src/common.rs" || exit 2
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
foca = { path = "$repo", features = ["std", "bincode-codec", "postcard-codec"] }
rand = { version = "0.9", default-features = false, features = ["small_rng"] }
bytes = "1"
serde = { version = "1", features = ["derive", "std"] }
bincode = { version = "2", default-features = false, features = ["std", "serde"] }
[profile.dev]
opt-level = 1
debug = false
T
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline --quiet || exit 3
timeout 120 "$t/target/debug/demo"
