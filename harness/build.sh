#!/bin/bash
# build.sh OUTDIR : compiles the harness together with /repo's current sources to OUTDIR/h.ll
set -e
H="$(cd "$(dirname "$0")" && pwd)"; O="$1"; mkdir -p "$O"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$O/target"
rm -rf "$O"/target/release/deps/*.bc "$O"/target/release/.fingerprint/zharness-*
( cd "$H" && RUSTFLAGS="-C save-temps -C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all" cargo rustc $ZH_CONFIG --lib --crate-type cdylib --offline --release -q 2>"$O/build.log" ) || { cat "$O/build.log" >&2; exit 1; }
BC=$(ls "$O"/target/release/deps/zharness.zharness*.bc | grep 'rcgu.bc$' | grep -v no-opt | head -1)
[ -n "$BC" ]
OPT="$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt"
"$OPT" --strip-debug -S "$BC" -o "$O/h.ll.tmp"
mv "$O/h.ll.tmp" "$O/h.ll"
