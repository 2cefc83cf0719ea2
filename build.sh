#!/bin/bash
# build.sh OUTDIR [REPO] - builds the simulator with the library sources of
# REPO (default /repo), in parallel. Prints nothing on success.
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=${1:?usage: build.sh OUTDIR [REPO]}
repo=${2:-/repo}
exec python3 "$here/tools/build.py" "$here" "$repo" "$out"
