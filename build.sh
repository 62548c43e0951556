#!/bin/bash
# Builds the simulator against /repo's current working tree. With SIM_WORK=1:
# the variant that counts the edges of the control flow taken (cost.rs), into
# a target directory of its own; the last line printed is the binary's path.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_TARGET_DIR="${SIM_TARGET:-$here/target}" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=${SIM_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} RUSTFLAGS= CARGO_INCREMENTAL=0
args=(--offline --locked --release)
out=$CARGO_TARGET_DIR/release
if [ "${SIM_WORK:-0}" = 1 ]; then
    # (--target: build scripts and macros are compiled without the flags)
    triple=$(rustc -vV | sed -n 's/^host: //p')
    export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc"
    args+=(--features work --target "$triple")
    out=$CARGO_TARGET_DIR/$triple/release
fi
# cargo judges freshness by time stamps, which copying and restoring files can
# confuse: always compile the library and the simulator anew
for f in "$out"/.fingerprint/rstar-*; do
    [ -d "$f" ] && rm -rf "$f"
done
cd "$here/sim" && cargo build "${args[@]}" && echo "$out/rstar-sim"
