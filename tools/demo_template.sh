#!/bin/bash
# Runs main.rs (beside this script) against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
futures = { path = "$repo/futures", features = ["thread-pool", "bilock", "unstable", "compat", "io-compat"] }
futures-test = { path = "$repo/futures-test" }
E
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS=
cd "$d" && cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 3; }
timeout 60 "$d/target/debug/demo"
