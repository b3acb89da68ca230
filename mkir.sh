#!/bin/bash
# mkir.sh SRC FLAVOUR OUT.ll
set -e
case $2 in
avx2) T="-march=x86-64-v3";;
sse4) T="-march=x86-64-v2";;
generic) T="-march=x86-64";;
neon) T="--target=aarch64-linux-gnu -march=armv8-a+crc+simd -idirafter /usr/aarch64-linux-gnu/include";;
esac
clang++-18 -stdlib=libc++ -std=c++17 -I/verif/vf -I${REPO:-/repo} $T -O0 -Xclang -disable-O0-optnone -fno-discard-value-names -fno-exceptions -fno-rtti -w -S -emit-llvm $4 "$1" -o "$3.0"
/usr/lib/llvm-18/bin/opt -S -passes='function(sroa,mem2reg)' "$3.0" -o "$3"
rm -f "$3.0"
