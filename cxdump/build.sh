#!/bin/bash
# Builds cxdump into $1 (default /verif/.build/cxdump).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.build/cxdump}
mkdir -p "$(dirname "$out")"
LL=/usr/lib/llvm-18
tmp="$out.tmp.$$"
g++ -std=c++17 -O1 -fno-rtti -fno-exceptions -w -I$LL/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/cxdump.cpp" -o "$tmp" -L$LL/lib -Wl,-rpath,$LL/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv -f "$tmp" "$out"
