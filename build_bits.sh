#!/bin/bash
# build_bits.sh OUT: builds the bit-primitive explorer from /repo's current tree into OUT
OUT=$1; V=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}
mkdir -p "$OUT"
CF="-std=c++17 -O2 -g -w -pthread -I$V/src -I$R/include"
g++ $CF -march=native -mbmi -mbmi2 -mlzcnt -c "$V/src/bits_tu.cpp" -o "$OUT/b1.o" &
g++ $CF -march=native -mbmi -mlzcnt -mno-bmi2 '-DVF_NAME(x)=x##_plain' -c "$V/src/bits_tu.cpp" -o "$OUT/b2.o" &
g++ $CF -march=native -c "$V/src/bcheck.cpp" -o "$OUT/bcheck.o" &
rc=0; for j in $(jobs -p); do wait $j || rc=1; done
[ $rc = 0 ] || exit 2
g++ -pthread "$OUT"/bcheck.o "$OUT"/b1.o "$OUT"/b2.o -o "$OUT/bcheck" || exit 2
