#!/bin/bash
# check.sh PROPERTY TIER — builds the checks against /repo's working tree and runs one property.
# check.sh replay FILE   — runs the case of a replay file again.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the checks could not be built or run.
set -u
cd "$(dirname "$0")" || exit 2
export VH_ROOT="$PWD" CARGO_TARGET_DIR="$PWD/.build" CARGO_NET_OFFLINE=true VERIF_TIER="${2:-quick}"
mkdir -p .build evidence replays
if ! cargo build --manifest-path harness/Cargo.toml --release --offline --bin vh >".build/build-$1.log" 2>&1; then
  grep -E "^error" -A 12 ".build/build-$1.log" | head -60
  echo "the checks do not build against /repo (see .build/build-$1.log)"
  exit 2
fi
ulimit -c 0
ulimit -v 25000000 2>/dev/null
if [ "${1:-}" = replay ]; then exec .build/release/vh replay "$2"; fi
.build/release/vh "$1"
rc=$?
if [ $rc -gt 2 ]; then
  # a signal (stack overflow, out of memory, abort): find the case by noting each one before it runs
  T="$PWD/.build/trace-$1"
  VH_TRACE="$T" .build/release/vh "$1" >/dev/null 2>&1
  .build/release/vh blame "$T"
  rc=$?
fi
# The thorough tier goes on with a search guided by coverage, where the code under test runs in this process.
case "$1" in C14|C17|C19|C20|C21|C23|C25) exit $rc;; esac
if [ "$VERIF_TIER" = thorough ] && [ $rc = 0 ]; then
  ./guided.sh "$1"
  g=$?
  if [ $g = 1 ]; then rc=1; fi
  if [ $g = 2 ]; then echo "no search guided by coverage was possible"; fi
  if [ $g -gt 2 ]; then
    T="$PWD/.build/trace-$1"
    VH_TRACE="$T" ./guided.sh "$1" >/dev/null 2>&1
    .build/release/vh blame "$T"
    rc=$?
  fi
fi
exit $rc
