#!/bin/bash
# usage: extract.sh REPO SCRATCH OUTDIR
#
# Builds the driver and writes OUTDIR/{default,pre-rfc8301}.json.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$1; SCRATCH=$2; OUT=$3
mkdir -p "$OUT"
SYS=$(rustc +nightly --print sysroot)
DRV=${VERIF_DRIVER:-}
if [ -z "$DRV" ]; then
    # built by setup.sh; up to date, or built here
    (cd "$HERE/driver" && cargo +nightly build --release --offline)
    DRV=$HERE/driver/target/release/mirdump
fi
export LD_LIBRARY_PATH=$SYS/lib
# the option picks a portable backend, so that the build needs no CPU detection
export RUSTFLAGS='--cfg curve25519_dalek_backend="serial"'
export MIRDUMP_CRATE=viadkim
export MIRDUMP_DESCEND="core::option,core::result,core::iter,core::ops,core::cmp,core::bool,core::convert"
export RUSTC_WORKSPACE_WRAPPER=$DRV
export CARGO_TARGET_DIR=$SCRATCH/target
cd "$REPO"
LOCK=$(md5sum Cargo.lock 2>/dev/null || true)
MIRDUMP_OUT=$OUT/default.json cargo +nightly check --offline --lib
MIRDUMP_OUT=$OUT/pre-rfc8301.json cargo +nightly check --offline --lib --features pre-rfc8301
[ -s "$OUT/default.json" ] && [ -s "$OUT/pre-rfc8301.json" ]
