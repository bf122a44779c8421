#!/bin/sh
# RUSTC_WRAPPER: compiles the library under test, its one dependency (memchr) and the thin shim
# around it with LLVM's SanitizerCoverage callbacks (every basic-block edge, every load and store of up to 16 bytes).
# The callbacks are implemented by the simulator (src/seams.rs); nothing else is instrumented.
rustc="$1"; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  norm|norm_shim|memchr)
    exec "$rustc" "$@" -C embed-bitcode=no -C codegen-units=1 -C no-vectorize-loops -C no-vectorize-slp \
      -C passes=sancov-module \
      -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard \
      -C llvm-args=-sanitizer-coverage-trace-loads \
      -C llvm-args=-sanitizer-coverage-trace-stores ;;
  normsim)
    # alloc_error_hook (turn a failed allocation into an unwinding panic) is unstable
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" \
      -C link-arg=-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=bcmp ;;
  *)
    exec "$rustc" "$@" ;;
esac
