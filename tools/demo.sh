#!/bin/bash
# Builds a small program over the crates of the current directory, and runs the cases beside this script.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
dir=$(mktemp -d) || exit 2
trap 'find "$dir" -delete' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
json-ld = { path = "$repo", features = ["serde"] }
json-ld-core = { path = "$repo/crates/core" }
json-ld-syntax = { path = "$repo/crates/syntax" }
json-ld-serialization = { path = "$repo/crates/serialization" }
json-syntax = "0.12"
serde_json = "1"
futures = "0.3"
iref = "3"
rdf-types = "0.22"
indexmap = "2"
linked-data = "0.1"
T
export CARGO_TARGET_DIR="$dir/target" CARGO_INCREMENTAL=0
cd "$dir" && cargo build --offline >"$dir/log" 2>&1 || { tail -40 "$dir/log"; exit 2; }
"$dir/target/debug/demo" "$here/cases.json"
