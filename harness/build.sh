#!/bin/bash
# build.sh <out dir> <src dir> <std bitcode dir> <entries,...>: harness + a copy of the sources -> red.ll and the native replay binary
set -e
OUT=$1; SRC=$2; STD=$3; E=$4; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"; cd "$OUT"; rm -f -r "$OUT/src" "$OUT/replay"; cp -r "$SRC" src
SR=$(rustc +stable --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu; BIN=$SR/bin
cp "$H"/vp.rs "$H"/vl.rs "$H"/vsx.rs "$H"/vmain.rs src/
python3 "$H/gen.py" src src/vgen.rs; python3 "$H/famgen.py" "${FAM:-$H/families.txt}" src/vl.rs src/vfam.rs "$E"
printf '\nmod vsx;\nmod vgen;\nmod vp;\nmod vl;\nmod vfam;\n#[cfg(vnative)] pub mod vmain;\n' >> src/main.rs
C="rustc +stable --edition 2021 -A warnings -C overflow-checks=on -C debug-assertions=off"
( $C --cfg vnative --crate-type rlib --crate-name pcr -C opt-level=1 src/main.rs -o libpcr.rlib && printf 'fn main(){pcr::vmain::main()}' > nat.rs && $C -C opt-level=1 --extern pcr=libpcr.rlib nat.rs -o replay ) & P=$!
RUSTC_BOOTSTRAP=1 $C --crate-type lib --crate-name pcr --emit=llvm-bc -C opt-level=1 -Zinline-mir=no -Zshare-generics=no -C no-prepopulate-passes -C panic=abort -C codegen-units=1 src/main.rs -o pcr.bc
$BIN/llvm-link pcr.bc --only-needed "$STD/std.bc" "$STD/alloc.bc" "$STD/core.bc" -o all.bc
$BIN/opt -passes='internalize,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)' -internalize-public-api-list=$E,stub_get_symbol,stub_get_position all.bc -o red.bc
$BIN/llvm-dis red.bc -o red.ll
wait $P
test -x replay
