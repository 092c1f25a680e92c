#!/bin/bash
# builds /verif/build/symx from the committed engine sources (offline)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${SYMX_OUT:-$here/../build}"
mkdir -p "$out"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
LL=/usr/lib/llvm-18
stamp="$out/symx.stamp"
sum="$(cat "$here"/*.cpp "$here"/*.hpp "$here"/build.sh "$here"/../harness/model_std.cpp "$here"/../harness/model_except.cpp | sha256sum | cut -d' ' -f1)"
if [ -x "$out/symx" ] && [ "$(cat "$stamp" 2>/dev/null)" = "$sum" ]; then exit 0; fi
FL="-std=c++17 -O2 -g1 -fno-omit-frame-pointer -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS -isystem $LL/include -isystem $Z3/include"
pids=()
for f in solver values real exec main; do
  g++ $FL -c "$here/$f.cpp" -o "$out/$f.o" & pids+=($!)
done
for m in std except; do
  $LL/bin/clang++ -std=c++17 -O1 -w -Xclang -disable-llvm-passes -emit-llvm -c "$here/../harness/model_$m.cpp" -o "$out/model_$m.bc" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
g++ "$out"/{solver,values,real,exec,main}.o -o "$out/symx.tmp" -L$LL/lib -lLLVM-18 -L$Z3/lib -l:libz3.so -lgmpxx -lgmp -Wl,-rpath,$Z3/lib:$LL/lib
mv "$out/symx.tmp" "$out/symx"
echo "$sum" > "$stamp"
