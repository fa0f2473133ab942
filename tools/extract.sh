#!/bin/bash
# usage: extract.sh OUT.json   -- type-checks /repo's current tree and dumps its MIR.
set -e
OUT="$1"; REPO="${CYK_REPO:-/repo}"
HERE="$(cd "$(dirname "$0")/.." && pwd)"
WORK="${CYK_WORK:-$HERE/.work}"; mkdir -p "$WORK"
export CYK_SYSROOT="$(rustc +nightly --print sysroot)"
export CARGO_NET_OFFLINE=true
if [ ! -x "$WORK/drv/release/mirdump" ] || [ "$HERE/driver/src/main.rs" -nt "$WORK/drv/release/mirdump" ]; then
  (cd "$HERE/driver" && cargo +nightly build --release --offline --target-dir "$WORK/drv" >"$WORK/drv.log" 2>&1) || { cat "$WORK/drv.log" >&2; exit 3; }
fi
[ -n "$OUT" ] || exit 0
rm -f "$OUT"
export LD_LIBRARY_PATH="$CYK_SYSROOT/lib" RUSTC="$HERE/tools/rustc" CYK_RUSTC="$HERE/tools/rustc" \
  CARGO_TARGET_DIR="$WORK/mt" CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false RUSTFLAGS=-Awarnings \
  RUSTC_WORKSPACE_WRAPPER="$WORK/drv/release/mirdump" CYK_MIR_OUT="$OUT" CARGO_INCREMENTAL=0
cd "$REPO"
# cargo's own freshness test must not skip the crate under analysis: forget its fingerprint
for d in "$WORK"/mt/debug/.fingerprint/cyclos-core-* "$WORK"/mt/debug/build/cyclos-core "$WORK"/mt/debug/build/cyclos-core-*; do if [ -d "$d" ]; then rm -r "$d"; fi; done
cargo +nightly check --offline --locked -p cyclos-core ${CYK_FEATURES:+--features "$CYK_FEATURES"} >"$WORK/mt.log" 2>&1 || { tail -60 "$WORK/mt.log" >&2; exit 2; }
[ -s "$OUT" ]
