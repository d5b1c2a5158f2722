#!/bin/bash
# Builds the MIR driver once; check.sh builds it again where this did not run.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE/driver"
cargo +nightly build --release --offline
