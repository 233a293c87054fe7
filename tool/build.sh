#!/bin/bash
# Builds the IR extractor into /verif/.build (ignored by git).
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
OUT=$HERE/.build
mkdir -p "$OUT"
if [ "$OUT/extract" -nt "$HERE/tool/extract.cpp" ]; then exit 0; fi
L=/usr/lib/llvm-20
TMP=$OUT/extract.$$
/usr/bin/clang++-20 -std=c++20 -O1 -fno-rtti -fno-exceptions -w -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS \
  -I$L/include "$HERE/tool/extract.cpp" -o "$TMP" -L$L/lib -Wl,-rpath,$L/lib -lclang-cpp -lLLVM-20
mv "$TMP" "$OUT/extract"
