#!/bin/bash
# Builds the simulator against /repo's working tree, in /verif/target.
# Prints nothing unless it fails.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=$here/target CARGO_INCREMENTAL=0 RUSTC_BOOTSTRAP=ethsim
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
cd "$here/sim" || exit 2
# Content, not timestamps, decides what is built again.
now=$(cd /repo && find src intrinsics Cargo.toml -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat "$CARGO_TARGET_DIR/.repo" 2>/dev/null)" ]; then
    rm -f "$CARGO_TARGET_DIR/.repo"
    cargo clean --offline --release -p ethnum -p ethnum_nd -p ethnum_ld -p ethnum_lr -p ethnum-intrinsics >/dev/null 2>&1
fi
log=$(cargo build --release --offline 2>&1) || { printf '%s\n' "$log" | tail -60; echo "ERROR build failed"; exit 2; }
printf '%s' "$now" >"$CARGO_TARGET_DIR/.repo"
