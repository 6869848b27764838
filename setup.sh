#!/bin/bash
# Builds the explorers once, so that the checks only have to rebuild what changed.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS= RUSTC_WRAPPER= CARGO_TERM_COLOR=never
mkdir -p "$here/evidence" "$here/replays"
for c in mc mc-nostd mc-shell; do
    [ -d "$here/$c" ] || continue
    (cd "$here/$c" && cargo build --release --offline --quiet) || exit 1
done
