#!/bin/bash
# Builds the extractor and the harness (its dependencies above all), offline.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
. "$V/tools/env.sh"
R="$V/.cache/rocks"
mkdir -p "$R"
( cd "$V/tools/extract" && CARGO_TARGET_DIR="$V/.cache/xt" cargo build --offline )
# librocksdb.a and libsnappy.a: built from the crate with optimisation (the
# searches spend most of their time in it); if that takes too long, taken from
# /repo's build products, or else built by the harness build itself
if [ ! -s "$R/optimised" ]; then
  mkdir -p "$V/.cache/rocksbuild"
  if ( cd "$V/tools/rocks" && unset ROCKSDB_LIB_DIR SNAPPY_LIB_DIR ROCKSDB_STATIC SNAPPY_STATIC && CARGO_TARGET_DIR="$V/.cache/rocksbuild" timeout ${ROCKS_TIMEOUT:-1000} cargo build --offline ); then
    for a in librocksdb.a libsnappy.a; do
      f=$(ls -S "$V"/.cache/rocksbuild/debug/build/librocksdb-sys-*/out/$a | head -1)
      strip -g "$f" || true
      cp "$f" "$R/$a.tmp"; mv "$R/$a.tmp" "$R/$a"
    done
    echo yes > "$R/optimised"
  fi
  find "$V/.cache/rocksbuild" -mindepth 1 -delete || true
fi
for a in librocksdb.a libsnappy.a; do
  f=$(ls -S /repo/target/*/build/librocksdb-sys-*/out/$a 2>/dev/null | head -1)
  if [ -n "$f" ] && [ ! -s "$R/$a" ]; then cp "$f" "$R/$a.tmp"; strip -g "$R/$a.tmp" 2>/dev/null || true; mv "$R/$a.tmp" "$R/$a"; fi
done
. "$V/tools/env.sh"
( cd "$V/harness" && cargo build --offline && cargo build --offline --profile nodebug )
