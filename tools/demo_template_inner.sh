#!/bin/bash
# Appends demo.rs as a test module to a copy of one source file (it needs private items) and runs it (cwd /repo, after build.sh).
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
WS=${SEED_WS:-/opt/vp/ws}
[ -n "${SEED_TARGET:-}" ] && export CARGO_TARGET_DIR=$SEED_TARGET
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -a "$WS" "$T/ws" || exit 2
F="$T/ws/@FILE@"
P="$T/ws"
while IFS= read -r -d / c; do
  P="$P/$c"
  if [ -L "$P" ]; then O=$(readlink -f "$P"); unlink "$P"; cp -a "$O" "$P" || exit 2; fi
done <<< "@FILE@"
cp --remove-destination "$(readlink -f "$F")" "$F.tmp" && rm -f "$F" && mv "$F.tmp" "$F"
cat "$HERE/demo.rs" >> "$F"
rm -rf "${CARGO_TARGET_DIR:?}"/debug/.fingerprint/@PKG@-*   # cargo would take the build of the file without the demo for fresh
cd "$T/ws" && TMPDIR=$T timeout 280 cargo test --offline --workspace --lib vp_demo -- --test-threads 1 > "$T/out" 2>&1
rc=$?
tail -40 "$T/out"
[ $rc -eq 0 ] && grep -q "test result: ok. [1-9]" "$T/out"
