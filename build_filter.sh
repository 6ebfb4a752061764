#!/bin/bash
# build_filter.sh OUT [memory]: builds the filter explorer from /repo's current tree into OUT
OUT=$1; V=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}
mkdir -p "$OUT"
CF="-O2 -march=native -g -pthread -DNDEBUG -w"
CC=gcc; CXX=g++
if [ "$2" = memory ]; then
  CC=clang; CXX=clang++
  CF="-O1 -march=native -gline-tables-only -pthread -DNDEBUG -w -DVF_MEMORY -fsanitize=address,undefined -fno-sanitize=alignment,vptr,function,nonnull-attribute,vla-bound -fno-sanitize-recover=all -fno-omit-frame-pointer"
fi
W="$R/include/wormhole"
NB="-fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memcmp"
one() { # accelerated wrapper first, the plain source if the wrapper does not fit it
  $CC $CF $NB -I"$W" -c "$V/src/vf_$1.c" -o "$OUT/$1.o" 2>"$OUT/$1.err" || $CC $CF $NB -I"$W" -c "$W/$1.c" -o "$OUT/$1.o"
}
one lib & one wh & one wh_int &
$CC $CF $NB -I"$W" -c "$W/kv.c" -o "$OUT/kv.o" &
$CXX -std=c++17 $CF -I"$V/src" -I"$R/include" -I"$W" -c "$V/src/fcheck.cpp" -o "$OUT/fcheck.o" &
rc=0; for j in $(jobs -p); do wait $j || rc=1; done
[ $rc = 0 ] || exit 2
$CXX $CF "$OUT"/fcheck.o "$OUT"/kv.o "$OUT"/lib.o "$OUT"/wh.o "$OUT"/wh_int.o -o "$OUT/fcheck" || exit 2
