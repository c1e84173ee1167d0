#!/bin/sh
# Nothing to build ahead of time: every check encodes /repo's current sources itself.
set -e
cd "$(dirname "$0")"
command -v cbmc >/dev/null && command -v goto-cc >/dev/null && command -v gcc >/dev/null
mkdir -p evidence replays
# the SIMD intrinsic models used when encoding are compared with this CPU's instructions
t=$(mktemp -d); gcc -O1 -mavx2 -w tools/check_intrin.c -o "$t/ci" && "$t/ci"; r=$?; rm -r "$t"; exit $r
