#!/bin/bash
# Builds the simulator and, with it, the library from /repo's current working tree.
set -u
cd "$(dirname "$0")/sim" || exit 2
mkdir -p target
exec 9>target/.lock
flock 9
# cargo decides by file times; a copied tree may carry old ones, so the library's own contents decide here
stamp=$(cd /repo && find src build spec Cargo.toml Cargo.lock -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/.stamp 2>/dev/null)" != "$stamp" ]; then
    cargo clean --offline --release -p dxf >/dev/null 2>&1
fi
if ! cargo build --release --offline >target/build.log 2>&1; then
    echo "the simulator does not build:" >&2
    tail -40 target/build.log >&2
    exit 2
fi
echo "$stamp" >target/.stamp
