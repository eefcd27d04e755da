#!/bin/bash
# replay.sh <file>: runs the execution recorded in a replay file again; exit 1 if the violation shows up again.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
export VERIF_DIR="$here"
exec "$here/sim/target/release/dxfsim" replay "$1"
