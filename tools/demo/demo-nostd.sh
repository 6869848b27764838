#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS= RUSTC_WRAPPER= CARGO_TERM_COLOR=never
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here"/*.rs "$w/src/"
cp "$here/demo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ntfs = { path = "$repo", default-features = false, features = ["time"] }
binrw = { version = "0.12.0", default-features = false }
time = { version = "0.3.9", features = ["large-dates", "macros"], default-features = false }
[profile.dev]
debug = 0
T
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo run --offline --quiet
