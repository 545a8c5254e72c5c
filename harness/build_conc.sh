#!/bin/bash
# build_conc.sh OUTDIR: builds the concurrency harness against /repo's working tree.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$1"
mkdir -p "$out/vstd"
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true
[ -e "$out/vstd/libvstd.rlib" ] || rustc --edition 2021 --crate-type rlib --crate-name vstd -C opt-level=1 -C debuginfo=1 \
  "$here/vstd/vstd.rs" --out-dir "$out/vstd" 2>"$out/vstd.log" || { cat "$out/vstd.log" >&2; exit 2; }
export VSTD="$out/vstd/libvstd.rlib"
export RUSTC_WRAPPER="$here/wrap_rustc.sh"
export CARGO_TARGET_DIR="$out/target"
cd "$here/conc"
cargo build --offline 2>"$out/cargo.log" || { tail -60 "$out/cargo.log" >&2; exit 2; }
