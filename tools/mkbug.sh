#!/bin/bash
# mkbug.sh <name>: records the uncommitted change of /tmp/wt (a copy of /repo) as /verif/seeded/<name>/patch.diff
mkdir -p /verif/seeded/$1
git -C /tmp/wt diff -- src spec > /verif/seeded/$1/patch.diff
git -C /tmp/wt checkout -q -- .
[ -f /verif/seeded/$1/demo.sh ] || cp /verif/tools/demo_template.sh /verif/seeded/$1/demo.sh
[ -s /verif/seeded/$1/patch.diff ] || echo "EMPTY PATCH"
