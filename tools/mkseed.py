#!/usr/bin/env python3
"""mkseed.py ID PROPERTY DIFF HISTORY KIND NEEDS BREAKS: makes seeded/ID from a diff and a failing history.
KIND: filter:<oracle number> | memory | index | indexmem | bits | conc"""
import sys, os, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, diff, hist, kind, needs, breaks = sys.argv[1:8]
d = f"{V}/seeded/{i}"
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
shutil.copy(diff, d + "/patch.diff")
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
h = "\n".join(l for l in open(hist).read().splitlines() if not l.startswith("#")) + "\n"
open(d + "/history.txt", "w").write(h)
S = V + "/src/"
HEAD = '''#!/bin/bash
# Replays history.txt against the library in the current directory: 0 if the property holds, 1 if not.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$R/include/wormhole
T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT; ulimit -c 0
'''
C = '''for f in kv lib wh wh_int; do $CC $CF -DNDEBUG -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memcmp -I"$W" -c "$W/$f.c" -o "$T/$f.o" & done
$CXX -std=c++17 $CF -DNDEBUG -I"$D" -I"$R/include" -I"$W" -c "$D/demo.cpp" -o "$T/demo.o" || exit 2
wait
$CXX $CF "$T"/*.o -o "$T/demo" || exit 2
'''
if kind.startswith("filter") or kind == "memory":
    for f in ("engine.hpp", "fx.hpp", "vf_rng.hpp"): shutil.copy(S + f, d)
    o = 256 if kind == "memory" else int(kind.split(":")[1])
    open(d + "/demo.cpp", "w").write('''#include "fx.hpp"
using namespace vf;
int main(int argc, char **argv) {
    init_shm(); std::ifstream f(argv[1]); std::stringstream ss; ss << f.rdbuf();
    const string why = isolated([&] { replay_history(ss.str(), %d); }, 60);
    puts(why.empty() ? "the history holds" : why.c_str());
    return !why.empty();
}
''' % o)
    if kind == "memory":
        s = HEAD + 'CC=clang CXX=clang++ CF="-O1 -g -march=native -pthread -w -DVF_MEMORY -fsanitize=address,undefined -fno-sanitize=alignment,vptr,function,nonnull-attribute,vla-bound -fno-sanitize-recover=all"\n'
        # account for the pages the index maps
        shutil.copy(S + "vf_lib.c", d); 
        s += C.replace('$CXX $CF "$T"/*.o', '$CC $CF -DNDEBUG -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memcmp -I"$W" -c "$D/vf_lib.c" -o "$T/lib.o" || exit 2\n$CXX $CF "$T"/*.o')
        s += 'ASAN_OPTIONS=detect_leaks=0:exitcode=66 UBSAN_OPTIONS=exitcode=66 timeout 200 "$T/demo" "$D/history.txt"\n'
    else:
        s = HEAD + 'CC=gcc CXX=g++ CF="-O2 -march=native -pthread -w"\n' + C + 'timeout 200 "$T/demo" "$D/history.txt"\n'
elif kind in ("index", "indexmem", "bits"):
    shutil.copy(S + "engine.hpp", d); shutil.copy(S + ("bcheck.cpp" if kind == "bits" else "icheck.cpp"), d + "/demo.cpp")
    if kind == "index":
        s = HEAD + 'CC=gcc CXX=g++ CF="-O2 -march=native -pthread -w"\n' + C
    elif kind == "indexmem":
        shutil.copy(S + "vf_lib.c", d); shutil.copy(S + "vf_wh.c", d); shutil.copy(S + "vf_wh_int.c", d)
        s = HEAD + 'CC=clang CXX=clang++ CF="-O1 -g -march=native -pthread -w -DVF_MEMORY -fsanitize=address,undefined -fno-sanitize=alignment,vptr,function,nonnull-attribute,vla-bound -fno-sanitize-recover=all"\nexport ASAN_OPTIONS=detect_leaks=0:exitcode=66 UBSAN_OPTIONS=exitcode=66\n'
        s += C.replace('"$W/$f.c"', '"$S/$f.c"').replace("for f in kv lib wh wh_int; do", 'cp "$D/vf_lib.c" "$T/lib.c"; cp "$D/vf_wh.c" "$T/wh.c"; cp "$D/vf_wh_int.c" "$T/wh_int.c"; cp "$W/kv.c" "$T/kv.c"\nsed -i "s,#include \\"lib.c\\",#include <lib.c>,;s,#include \\"wh.c\\",#include <wh.c>,;s,#include \\"wh_int.c\\",#include <wh_int.c>," "$T"/*.c\nS=$T\nfor f in kv lib wh wh_int; do')
    else:
        shutil.copy(S + "bits_tu.cpp", d)
        s = HEAD + '''CF="-std=c++17 -O2 -w -pthread -march=native -I$D -I$R/include"
g++ $CF -mbmi -mbmi2 -mlzcnt -c "$D/bits_tu.cpp" -o "$T/b1.o" && g++ $CF -mbmi -mlzcnt -mno-bmi2 '-DVF_NAME(x)=x##_plain' -c "$D/bits_tu.cpp" -o "$T/b2.o" && g++ $CF -c "$D/demo.cpp" -o "$T/demo.o" && g++ -pthread "$T"/*.o -o "$T/demo" || exit 2
'''
    s += f'timeout 200 "$T/demo" --prop {prop} --replay "$D/history.txt"\n'
elif kind == "conc":         # every schedule of the failing program
    h = "\n".join(l for l in h.splitlines() if l and not l.startswith("schedule")) + "\n"; open(d + "/history.txt", "w").write(h)
    os.mkdir(d + "/src")
    for f in ("engine.hpp", "conc_rt.hpp", "cplan.hpp", "ccheck.cpp"): shutil.copy(S + f, d + "/src")
    shutil.copy(V + "/build_conc.sh", d)
    s = HEAD + f'REPO=$R "$D/build_conc.sh" "$T" || exit 2\ntimeout 250 "$T/ccheck" --prop {prop} --replay "$D/history.txt"\n'
open(d + "/demo.sh", "w").write(s); os.chmod(d + "/demo.sh", 0o755)
