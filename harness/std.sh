#!/bin/bash
# std.sh <dir>: LLVM bitcode of the installed standard library
set -e
D=$1; mkdir -p "$D"; cd "$D"
SR=$(rustc +stable --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu; BIN=$SR/bin
for l in std alloc core; do if [ ! -f $l.bc ]; then mkdir -p x_$l; ( cd x_$l; ar x "$SR"/lib/lib$l-*.rlib; o=$(ls | grep "^$l-.*\.o$" | head -1); $BIN/llvm-objcopy --dump-section .llvmbc=../$l.tmp "$o" ); mv $l.tmp $l.bc; rm -r "$D/x_$l"; fi; done
