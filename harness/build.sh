#!/bin/bash
# build.sh [FAMILY..]: build the harness (all families if none is named) against /repo's working tree.  Own target dir; libz3.a is taken
# from /repo's prebuilt z3-sys when there (stripped), else z3-sys builds it from source.
cd "$(dirname "$0")" || exit 2
V=$(cd .. && pwd)
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=1.70 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export RUSTFLAGS="-C target-cpu=x86-64 -Awarnings"
T=$V/target
mkdir -p "$T"
if [ ! -s "$T/z3lib/libz3.a" ] && [ ! -e "$T/z3lib/none" ]; then
  mkdir -p "$T/z3lib"
  src=$(ls /repo/target/*/build/z3-sys-*/out/lib/libz3.a 2>/dev/null | head -1)
  if [ -n "$src" ]; then
    strip -g -o "$T/z3lib/tmp.a" "$src" && mv "$T/z3lib/tmp.a" "$T/z3lib/libz3.a"
  else
    : > "$T/z3lib/none"
  fi
fi
CFG=()
if [ -s "$T/z3lib/libz3.a" ]; then
  CFG=(--config "target.x86_64-unknown-linux-gnu.z3.rustc-link-search=[\"$T/z3lib\"]"
       --config 'target.x86_64-unknown-linux-gnu.z3.rustc-link-lib=["static=z3","stdc++"]')
fi
B=()
for f in "$@"; do B+=(--bin "ruler-$f"); done
exec cargo build --offline "${B[@]}" --target-dir "$T" "${CFG[@]}"
