#!/bin/bash
# Builds the harness, the prover and the native verifier from /repo's current working tree.
. /verif/bin/env.sh
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.dst-lock"
flock 9
# cargo looks at modification times; make sure that changed content is always rebuilt
now=$( (cd /repo && git ls-files -co --exclude-standard -z | sort -z | xargs -0 sha256sum 2>/dev/null; cd /verif/sim && find . -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
stamp="$CARGO_TARGET_DIR/.dst-stamp"
if [ -f "$stamp" ] && [ "$(cat "$stamp")" = "$now" ] && [ -x "$CARGO_TARGET_DIR/release/dst" ] && [ -x "$CARGO_TARGET_DIR/release/prover" ] && [ -f "$CARGO_TARGET_DIR/release/shim.so" ]; then
  exit 0
fi
for f in "$CARGO_TARGET_DIR"/release/.fingerprint/{ckb_bf,ckb-std,halo2,poseidon,prover_bin,verifier_native,dst}*; do
  [ -d "$f" ] && rm -rf "$f"
done
rm -f "$stamp"
log=$(mktemp /tmp/dst-build.XXXXXX)
if ! cargo build --release --offline >"$log" 2>&1; then
  grep -E -A12 '^error' "$log" | head -80 >&2
  rm -f "$log"
  echo "build failed" >&2
  exit 2
fi
rm -f "$log"
gcc -O2 -shared -fPIC -Wall -o "$CARGO_TARGET_DIR/release/shim.so" /verif/sim/shim/shim.c -ldl || exit 2
echo "$now" >"$stamp"
