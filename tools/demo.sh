#!/bin/bash
# builds main.rs (beside this script) against the merkletree crate in the current directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=1.71.1 CARGO_NET_OFFLINE=true
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/tmp"
export TMPDIR=$work/tmp
cp "$here"/*.rs "$work/src/"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
merkletree = { path = "$repo" }
typenum = "1.11.2"
rayon = "1.0.0"
tempfile = "3.3"
anyhow = "1.0.23"
[profile.dev]
opt-level = 1
debug = false
[workspace]
T
cd "$work" || exit 3
cargo build --offline -q 2> "$work/log" || { tail -20 "$work/log"; exit 3; }
timeout 250 "$work/target/debug/demo"
