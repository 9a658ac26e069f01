#!/bin/bash
# guided.sh PROPERTY — the coverage-guided part of the thorough tier: an instrumented build of the same checks.
set -u
cd "$(dirname "$0")" || exit 2
export VH_ROOT="$PWD" CARGO_TARGET_DIR="$PWD/.build/guided" CARGO_NET_OFFLINE=true VERIF_TIER=thorough
mkdir -p .build/guided
T=x86_64-unknown-linux-gnu
L="-C llvm-args=-sanitizer-coverage"
O="$PWD/.build/guided/rt-$(md5sum <harness/guide/rt.c | cut -c1-12).o"
gcc -O2 -mpopcnt -c harness/guide/rt.c -o "$O" || { echo "the run-time part of the guided checks does not build"; exit 2; }
export RUSTFLAGS="-C codegen-units=1 -C passes=sancov-module $L-level=3 $L-inline-8bit-counters $L-pc-table $L-trace-compares -C link-arg=$O"
if ! cargo build --manifest-path harness/Cargo.toml --profile guided --features guided --offline --target $T --bin vh >".build/build-guided-$1.log" 2>&1; then
  grep -E "^error" -A 12 ".build/build-guided-$1.log" | head -40
  echo "the guided checks do not build (see .build/build-guided-$1.log)"
  exit 2
fi
ulimit -c 0
ulimit -v 25000000 2>/dev/null
exec .build/guided/$T/guided/vh guided "$1"
