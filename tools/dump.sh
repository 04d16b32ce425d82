#!/bin/bash
# dump.sh OUT.json PROP  -- writes the MIR reachable from the lemmas of a property (c01, ...)
set -e
cd "$(dirname "$0")/../harness"
export MIRDUMP_OUT="$1" LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib"
export RUSTC_WORKSPACE_WRAPPER="$PWD/../driver/target/release/mirdump"
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Cdebug-assertions=off -Coverflow-checks=on"
export CARGO_TARGET_DIR="${TARGET:-$PWD/target/dump}"
cargo +nightly clean -q --offline -p icalharness -p icalendar 2>/dev/null || true
case "$2" in c38*) F="$2";; *) F="full,$2";; esac   # c38 is about the library without its optional features
exec cargo +nightly check --offline -q --features "$F"
