#!/bin/bash
# Same seed, other numbers of workers, run twice: the digests must agree.
cd "$(dirname "$0")/.." || exit 2
n=${1:-3000}; bad=0
for p in $(sim/target/release/dxfsim list); do
  a=$(DXFSIM_RUNS=$n DXFSIM_WORKERS=8 sim/target/release/dxfsim check $p quick | grep -o 'digest=[0-9a-f]*')
  b=$(DXFSIM_RUNS=$n DXFSIM_WORKERS=3 sim/target/release/dxfsim check $p quick | grep -o 'digest=[0-9a-f]*')
  if [ -n "$a" ] && [ "$a" = "$b" ]; then echo "$p same $a"; else echo "$p DIFFERS $a $b"; bad=1; fi
done
exit $bad
