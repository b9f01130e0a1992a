#!/bin/bash
# builds the symbolic executor and extracts the standard library's bitcode
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
(cd engine && cargo +stable build --release --offline)
bash harness/std.sh "$PWD/build/std"
