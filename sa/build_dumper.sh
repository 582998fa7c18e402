#!/bin/bash
# builds the AST front end (13 s); idempotent, locked. usage: build_dumper.sh OUTDIR
set -e
d=$(cd "$(dirname "$0")" && pwd); out=$1; mkdir -p "$out"
exec 9>"$out/.lock"; flock 9
src="$d/cpp/dumper.cpp"
h=$(sha256sum "$src" | cut -c1-16)
bin="$out/tridump.$h"
[ -x "$bin" ] && { echo "$bin"; exit 0; }
clang++ -O0 -std=c++17 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') "$src" -o "$bin.tmp.$$" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 1>&2
mv "$bin.tmp.$$" "$bin"; echo "$bin"
