#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
#
# Builds the MIR driver, extracts the analysable form of the crate in /repo's
# current tree (nothing of it is run), and decides the property from it.
# Everything is built in a scratch directory, removed at the end.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
REPO=${VERIF_REPO:-/repo}
export PYTHONHASHSEED=${PYTHONHASHSEED:-0}
if [ -n "${VERIF_DUMPS:-}" ]; then
    exec python3 "$HERE/checker/main.py" "$PROP" "$TIER" "$VERIF_DUMPS" "$REPO"
fi
SCRATCH=$(mktemp -d /tmp/viadkim-check.XXXXXX) || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
bash "$HERE/extract.sh" "$REPO" "$SCRATCH" "$SCRATCH/dumps" >"$SCRATCH/log" 2>&1 || {
    tail -40 "$SCRATCH/log"
    echo "extraction failed"
    exit 2
}
VERIF_SCRATCH=$SCRATCH python3 "$HERE/checker/main.py" "$PROP" "$TIER" "$SCRATCH/dumps" "$REPO"
