#!/bin/bash
# Builds the model checker against /repo's current working tree.
# usage: build.sh [std] [nostd] [bare]
set -u
cd "$(dirname "$0")/mc" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
one() { # target dir, then cargo arguments
  local t=$1; shift
  # never trust time stamps: the library under test is always rebuilt
  rm -rf "$PWD/$t"/release/.fingerprint/substrate_parser-* "$PWD/$t"/*/release/.fingerprint/substrate_parser-*
  local log; log=$(mktemp)
  if ! cargo "$@" --target-dir "$t" >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"; echo "BUILD FAILED" >&2; exit 2
  fi
  rm -f "$log"
}
[ $# = 0 ] && set -- std nostd bare
for v in "$@"; do
  case $v in
    std) one target build --release --offline --features std,host --bin mc ;;
    nostd) one target-nostd build --release --offline --features host --bin mc ;;
    bare)
      [ -f src/bare.rs ] || continue
      RUSTFLAGS="-Clinker=rust-lld -Clinker-flavor=ld.lld -Crelocation-model=static -Clink-arg=--no-pie -Cpanic=abort" \
      one target-bare +nightly build --release --offline --features bare --bin mc32 --target i686-unknown-linux-gnu \
        -Zbuild-std=core,alloc,compiler_builtins -Zbuild-std-features=compiler-builtins-mem ;;
  esac
done
