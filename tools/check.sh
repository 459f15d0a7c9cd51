#!/bin/bash
# check.sh <property> [--thorough] [--replay file]: rebuild from /repo and run one property check.
set -u
log=$(mktemp)
if ! bash /verif/tools/build.sh >"$log" 2>&1; then
  echo "BUILD FAILED" >&2; grep -E "^error" -A12 "$log" | head -60 >&2; rm -f "$log"; exit 2
fi
rm -f "$log"
export RAYON_NUM_THREADS="${RAYON_NUM_THREADS:-2}"
exec "${PV_TARGET:-/verif/target}/debug/pv" "$@"
