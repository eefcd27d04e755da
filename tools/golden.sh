#!/bin/bash
# Regenerates golden/fields.txt from the library in /repo: tools/golden.sh <samples per cell> [seed]
# A field is claimed for a cell only if it survived in every sample of at least a few; with KEEP=1 the new
# samples are added to those of the existing table.
set -eu
cd "$(dirname "$0")/.."
bash build.sh
D=$(mktemp -d /tmp/dxfgold.XXXXXX)
cp sim/target/release/dxfsim "$D/dxfsim"
for p in $(seq 0 31); do echo $p; done | xargs -P 8 -I{} "$D/dxfsim" golden "$1" {} 32 "$D/part{}" "${2:-0}"
cat "$D"/part* | LC_ALL=C sort >"$D/all"
if [ "${KEEP:-0}" = 1 ]; then
    python3 tools/golden_and.py golden/fields.txt "$D/all" >"$D/both"
    mv "$D/both" golden/fields.txt
else
    mv "$D/all" golden/fields.txt
fi
rm -rf "$D"
