#!/bin/bash
# build_conc.sh OUT: builds the schedule explorer from /repo's current tree into OUT. The index's C files are
# compiled with thread-sanitizer instrumentation, whose call-backs the explorer itself provides, and the
# C library's memory, lock and block functions are redirected to the explorer at symbol level.
OUT=$1; V=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}
mkdir -p "$OUT"
W="$R/include/wormhole"
CF="-O1 -march=native -g -DNDEBUG -w -fno-pie -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector"
RD=""
for s in malloc calloc realloc free posix_memalign aligned_alloc memalign mmap munmap mlock memcpy memmove memset memcmp qsort_r qsort \
         pthread_spin_init pthread_spin_lock pthread_spin_trylock pthread_spin_unlock \
         pthread_mutex_init pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_destroy sched_yield usleep nanosleep; do RD="$RD --redefine-sym $s=vf_$s"; done
UP=""
for s in slab_create rwlock_trylock_read_nr rwlock_trylock_write_nr; do UP="$UP --redefine-sym $s=vf_$s"; done
one() { gcc $CF -fsanitize=thread -fno-builtin -I"$W" -c "$W/$1.c" -o "$OUT/$1.o" && objcopy $RD $2 "$OUT/$1.o"; }
one kv & one lib & one wh "$UP" & one wh_int "$UP" &
g++ -std=c++17 -O2 -march=native -g -w -fno-pie -I"$V/src" -I"$R/include" -I"$W" -c "$V/src/ccheck.cpp" -o "$OUT/ccheck.o" &
rc=0; for j in $(jobs -p); do wait $j || rc=1; done
[ $rc = 0 ] || exit 2
g++ -no-pie -pthread "$OUT"/ccheck.o "$OUT"/kv.o "$OUT"/lib.o "$OUT"/wh.o "$OUT"/wh_int.o -o "$OUT/ccheck" || exit 2
