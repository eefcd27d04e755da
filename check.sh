#!/bin/bash
# check.sh <property> [quick|thorough]: builds, then searches for a violation of the property.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
export VERIF_DIR="$here"
exec "$here/sim/target/release/dxfsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
