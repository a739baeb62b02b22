#!/bin/bash
# Builds main.rs against the runtime crate of the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
zserio = { path = "$repo/crates/zserio" }
bitreader = "0.3.8"
rust-bitwriter = "0.0.1"
[workspace]
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
timeout 280 cargo run --offline -q --manifest-path "$t/Cargo.toml" && exit 0
exit 1
