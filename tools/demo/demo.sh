#!/bin/bash
# Builds demo.rs against the crate in the current directory's tree and runs it: 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
prost = "0.14"
prost-types = "0.14"
serde_json = "1"
prost-reflect = { path = "$repo/prost-reflect", features = ["serde", "text-format"] }
[profile.dev]
debug = 0
[workspace]
T
cd "$dir" || exit 2
export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target"
cargo build --offline -q 2> "$dir/log" || { tail -20 "$dir/log"; exit 3; }
timeout 120 "$dir/target/debug/demo"
