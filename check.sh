#!/bin/bash
# usage: bash check.sh <property> [quick|thorough]
# Rebuilds the explorer against /repo's working tree and explores one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
export PATH="/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS= RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export MC_VERIF=$here VERIF_TIER=$tier
mkdir -p "$here/evidence" "$here/replays"
build() { # crate directory
    # Cargo trusts mtimes; forget its fingerprints so that the working tree's contents are compiled.
    rm -rf "$here/$1/target/release/.fingerprint"/ntfs-* "$here/$1/target/release/.fingerprint"/mc-*
    (cd "$here/$1" && cargo build --release --offline --quiet) >"$here/replays/build-$1.log" 2>&1 || {
        echo "build of $1 failed:" >&2
        grep -E '^error' -A12 "$here/replays/build-$1.log" | head -60 >&2
        exit 3
    }
}
case $prop in
    C19|C20) crate=mc-shell ;;
    *) crate=mc ;;
esac
build $crate
if [ "$prop" = C18 ]; then build mc-nostd; fi
exec "$here/$crate/target/release/$crate" "$prop" "$tier"
