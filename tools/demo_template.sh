#!/bin/bash
# Compiles demo.rs as an integration test of the crate and runs it (cwd /repo, after build.sh).
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
WS=${SEED_WS:-/opt/vp/ws}
[ -n "${SEED_TARGET:-}" ] && export CARGO_TARGET_DIR=$SEED_TARGET
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -a "$WS" "$T/ws" || exit 2
D="$T/ws/@DIR@"
for L in "$D" "$D/tests"; do
  if [ -L "$L" ]; then O=$(readlink -f "$L"); unlink "$L"; cp -a "$O" "$L" || exit 2; fi
done
mkdir -p "$D/tests"
cp "$HERE/demo.rs" "$D/tests/vp_demo.rs"
cd "$T/ws" && TMPDIR=$T timeout 280 cargo test --offline -p @PKG@ --test vp_demo -- --test-threads 1
