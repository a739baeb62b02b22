#!/bin/bash
# Generates code from the schemas beside this file with the generator of the repository in the current directory,
# builds main.rs against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/gen/src" "$t/demo/src" "$t/schema"
cp "$here"/*.zs "$t/schema/"
cp "$repo/Cargo.lock" "$t/gen/Cargo.lock"
cp "$repo/Cargo.lock" "$t/demo/Cargo.lock"
cat > "$t/gen/Cargo.toml" <<T
[package]
name = "gen"
version = "0.0.0"
edition = "2021"
[dependencies]
zserio-rs-build = { path = "$repo/crates/zserio-rs-build" }
[workspace]
T
cat > "$t/gen/src/main.rs" <<'T'
use std::path::Path;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut model = zserio_rs_build::Model::from_filesystem(Path::new(&a[1]));
    model.evaluate();
    zserio_rs_build::generate_model(&mut model, Path::new(&a[2]), "");
}
T
cat > "$t/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
zserio = { path = "$repo/crates/zserio" }
bitreader = "0.3.8"
rust-bitwriter = "0.0.1"
bitmask-enum = "2.2.4"
[workspace]
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
timeout 200 cargo run --offline -q --manifest-path "$t/gen/Cargo.toml" -- "$t/schema" "$t/demo/src" || exit 1
cp "$here/main.rs" "$t/demo/src/main.rs"
timeout 200 cargo run --offline -q --manifest-path "$t/demo/Cargo.toml" 2>&1 | tail -30
exit "${PIPESTATUS[0]}"
