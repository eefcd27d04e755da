#!/bin/bash
# Builds demo.rs against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
dxf = { path = "$repo" }
TOML
cd "$t" || exit 2
CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2>"$t/log" || { cat "$t/log"; exit 2; }
mkdir -p "$t/scratch"
cd "$t/scratch" && timeout 120 "$t/target/debug/demo"
