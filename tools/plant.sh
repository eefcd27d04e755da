#!/bin/bash
# plant.sh <name>: validates the planted bug /verif/seeded/<name> in a scratch copy of /repo:
# the patch applies, builds, passes the stable tests, and the demonstration tells the two trees apart.
set -u
n=$1; s=/verif/seeded/$n
w=/tmp/plant-$n; rm -rf "$w"; cp -a /repo "$w"; cd "$w" || exit 2
git checkout -q -- . 
demo=/tmp/plant-demo-$n; rm -rf "$demo"; mkdir -p "$demo"; cp "$s"/* "$demo"/; rm -f "$demo"/*.diff "$demo"/meta.json
(bash "$demo/demo.sh" >"/tmp/plant-$n.clean.log" 2>&1); a=$?
git apply "$s/patch.diff" || { echo "$n: patch does not apply"; rm -rf "$w" "$demo"; exit 1; }
cargo test --no-run --offline >"/tmp/plant-$n.build.log" 2>&1 || { echo "$n: does not build"; tail -20 "/tmp/plant-$n.build.log"; rm -rf "$w" "$demo"; exit 1; }
cargo test --no-fail-fast --offline -- --test-threads 8 >"/tmp/plant-$n.test.log" 2>&1
bad=$(python3 - "/tmp/plant-$n.test.log" <<'P'
import json,re,sys
b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed')
t=open(sys.argv[1],errors='replace').read()
fails=sorted(set(re.findall(r'^test (\S+).* \.\.\. FAILED',t,re.M)))
print(' '.join(f for f in fails if any(f in s for s in st)))
P
)
(bash "$demo/demo.sh" >"/tmp/plant-$n.bug.log" 2>&1); c=$?
echo "$n: demo clean=$a bug=$c failing tests: [$bad]"
rm -rf "$w" "$demo"
[ $a = 0 ] && [ $c != 0 ] && [ -z "$bad" ]
