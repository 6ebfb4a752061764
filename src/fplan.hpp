// Which bounded spaces each property explores, and how each execution is judged.
#pragma once
#include "scen.hpp"

namespace vf {
struct Plan { vector<Scenario> scenarios; int oracle = 0; string bounds; };

inline const U WIDE = {1ULL << 40, ~0ULL - (1ULL << 40)};
inline const uint64_t CENTRE = 0x5A5A5A5A5A5A5A5AULL;
inline const U NARROW = {0x5A5A5A5A00000000ULL, 0x5A5A5A5AFFFFFFFFULL};          // long shared prefix
inline const U TIGHT = {0x5A5A5A5A5A5A5A00ULL, 0x5A5A5A5A5A5A5AFFULL};                 // 56 shared bits
inline const U BIGSTORE = {1ULL << 62, 1ULL << 63};

// Starting sets for the variable-length types: around the alphabets of string_sets()
inline vector<vector<string>> string_bases() {
    auto S = [](std::initializer_list<const char *> l) { vector<string> r; for (auto x : l) r.push_back(unhex(x)); return r; };
    return {S({"10", "fd"}), S({"0000000001", "616163", "fe00"}), S({"61"}), S({"6161", "6162", "61626364656667", "8001"})};
}

inline void strings(Gen &g, const string &type, uint32_t infix, int depth, size_t nbases, const string &kk, uint32_t max_s = 2) {
    auto bases = string_bases();
    size_t si = 0;
    for (auto &set : string_sets()) {
        si++;
        for (size_t b = 0; b < nbases; b++) {
            auto base = bases[b]; std::sort(base.begin(), base.end());
            g.tree(strf("strings %s w%u set%zu base%zu", type.c_str(), infix, si, b), {type, 3}, infix, base, set, depth, {}, max_s, 2, kk);
        }
    }
}

// The loaders: every size around the group size of 1024 times every distribution times both ends of the key space
inline void loads(Gen &g, const vector<Shape> &shapes, const vector<uint32_t> &infixes, const vector<size_t> &sizes, int depth, const string &kk, bool extremes = true) {
    for (auto &sh : shapes) for (auto w : infixes) for (size_t n : sizes) for (int dist = 0; dist < 4; dist++) for (int ext = 0; ext < (extremes ? 4 : 1); ext++) {
        if (sh.kind == 5 && (dist == 2)) continue;
        U u;
        if (dist == 0) u = spaced(n, 1ULL << 56, (~0ULL >> 1) / std::max<size_t>(n, 1) | 1);
        else if (dist == 1) u = spaced(n, sh.kind == 5 ? 0x1234000000000000ULL : 0x1234567800000000ULL, sh.kind == 5 ? 1ULL << 32 : 1);
        else if (dist == 2) u = spaced(n, 0x7FFFFFFFFFFFF000ULL, 3);
        else u = scrambled(n, 1ULL << 40, ~0ULL - (1ULL << 41));
        if (ext & 1) u[0] = 0;
        if (ext & 2) u.back() = ~0ULL;
        std::sort(u.begin(), u.end());
        auto base = shape_keys(sh, u);
        if (base.size() != n && sh.kind != 5) continue;
        Scenario s; s.name = strf("load %s%d w%u n%zu dist%d ext%d", sh.type.c_str(), sh.kind, w, n, dist, ext);
        s.cfg.type = sh.type; s.cfg.infix = w; s.cfg.lf = g.lf; s.cfg.base = base;
        vector<string> pk = {base[0], base[base.size() / 2], base.back()};
        if (n > 1024) pk.push_back(base[1023]), pk.push_back(base[1024]);
        if (n > 3) pk.push_back(base[n / 3]);
        s.cfg.probes = make_probes(sh, pk, w, g.probe_cap);
        vector<string> ks = {base[base.size() / 2], base.back()};
        if (n > 1024) ks.push_back(base[1024]);
        const string fresh = shape_key(sh, 0x4000000000000001ULL); if (!std::binary_search(base.begin(), base.end(), fresh)) ks.push_back(fresh);
        s.alphabet = make_alphabet(kk, ks); s.depth = depth; s.max_s = 1;
        if (depth == 0) { s.ramp = true; s.every = 1; }
        for (auto &e : g.extra) s.alphabet.push_back(e);
        g.out.push_back(s);
    }
}

inline void ramps(Gen &g, const Shape &sh, uint32_t infix, uint32_t every, bool deletes, bool thorough, bool splits = true) {
    for (int ins : {0, 1, 2, 3}) for (int del : {0, 1, 2, 3}) {
        if (!thorough && (ins + 2 * del) % 3) continue;
        if (!deletes && del) continue;
        g.long_ramp(sh, infix, spaced(150, (1ULL << 63) + (1ULL << 50), 7ULL << 50), ins, del, 0, every, {1ULL << 63, ~0ULL - 1}, deletes);
        g.long_ramp(sh, infix, spaced(300, (1ULL << 63) + (5ULL << 45), 1ULL << (53 - std::min(infix, 8u))), ins, del, 0, every, BIGSTORE, deletes);
        if (splits) {
            g.long_ramp(sh, infix, scrambled(120, 1ULL << 50, ~0ULL - (1ULL << 51)), ins, del, 17, every, WIDE, deletes);
            g.long_ramp(sh, infix, spaced(90, 0x5A5A5A5A5A000000ULL, 0x10001), ins, del, 13, every, WIDE, deletes);
        }
    }
}
inline void big_ramps(Gen &g, const Shape &sh, uint32_t infix, uint32_t n, uint32_t every, bool deletes) {
    g.long_ramp(sh, infix, scrambled(n, (1ULL << 63) + 1, (1ULL << 63) - 2), 2, 1, 0, every, BIGSTORE, deletes);
    g.long_ramp(sh, infix, spaced(n, (1ULL << 63) + 1, (1ULL << 63) / n - 1), 0, 2, 0, every, BIGSTORE, deletes);
    g.long_ramp(sh, infix, spaced(n, (1ULL << 63) + (1ULL << 62), 1ULL << (53 - infix)), 3, 0, 0, every, BIGSTORE, deletes);
}
inline void clusters(Gen &g, const Shape &sh, uint32_t infix, bool thorough, int depth, const string &kk) {
    for (int64_t w : thorough ? vector<int64_t>{0, 1, 15, 31, 32, 62, 63} : vector<int64_t>{0, 31, 63})
        for (uint32_t fill : thorough ? vector<uint32_t>{0, 2, 6, 20, 56} : vector<uint32_t>{2, 20}) g.cluster(sh, infix, false, w, fill, depth, 16, kk);
    for (int64_t w : thorough ? vector<int64_t>{0, 1, 60, 63, 64, 512, 1000, 1020, 1022, 1023} : vector<int64_t>{0, 61, 512, 1022, 1023})
        for (uint32_t fill : thorough ? vector<uint32_t>{0, 4, 30, 70, 140} : vector<uint32_t>{4, 70}) g.cluster(sh, infix, true, w, fill, depth, 1, kk);
}
inline void resizes(Gen &g, const Shape &sh, uint32_t infix, bool thorough, int depth, const string &kk) {
    for (uint32_t n : thorough ? vector<uint32_t>{1, 30, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67} : vector<uint32_t>{58, 59, 60, 61, 63, 65})
        for (bool dense : {false, true}) g.resize(sh, infix, false, n, depth, dense, kk);
}
inline void midlines(Gen &g, const Shape &sh, uint32_t infix, bool thorough, int depth, const string &kk) {
    for (uint32_t low = 432; low <= 500; low += thorough ? 4 : 17) for (uint32_t tail = 2; tail <= 44; tail += thorough ? 1 : 3) for (int runs : {1, 3}) g.midline(sh, infix, low, tail + low % 3, runs, depth, kk);
}
// Loads of every small set of strings that vary in length
inline void string_loads(Gen &g, const string &type, uint32_t infix, size_t most, int depth, const string &kk) {
    for (auto &base : load_sets(most)) {
        string nm; for (auto &k : base) nm += " " + hex(k);
        vector<string> ks = {unhex("ff02"), unhex("6161"), base.back()}; std::sort(ks.begin(), ks.end()); ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
        g.tree(strf("string load %s w%u%s", type.c_str(), infix, nm.c_str()), {type, 3}, infix, base, ks, depth, {}, 1, 2, kk);
    }
}
// Wide infixes: keys that differ far behind the boundary keys' first difference, entries wider than 32 bits
inline void wide(Gen &g, bool th, const vector<uint32_t> &widths, const vector<Shape> &shapes, int depth) {
    for (auto w : widths) for (auto &sh : shapes) {
        const int far = (int) std::min<uint32_t>(63, w + 9);
        g.related(sh, w, WIDE, CENTRE, sh.kind == 5 ? vector<int>{-1, 3, 13, 20, 31} : vector<int>{-1, 3, 13, 22, far}, 3, depth);
        if (w <= 36 && sh.kind != 5) g.related(sh, w, NARROW, CENTRE, {-1, 33, 40, 47, 63}, 3, depth);
        if (th) g.related(sh, w, TIGHT, CENTRE, {-1, 57, 59, 60, 63}, 3, depth - 1);
    }
}
inline const vector<int> FLIPS = {-1, 3, 12, 13, 14, 20, 40, 63};
inline const vector<int> FLIPS9 = {-1, 0, 3, 9, 12, 13, 14, 15, 20, 40, 63};

inline Plan make_plan(const string &prop, bool th) {
    Plan p; Gen g; g.thorough = th;
    const Shape I{"int", 0}, SI{"sint", 0}, F8{"fix8", 0}, F16p{"fix16", 1}, F16s{"fix16", 4}, F4{"fix4", 5}, SS{"sstr", 2}, V{"var", 2}, V3{"var", 3}, VL{"var", 6}, SL{"sstr", 6};
    auto lf = [&](float x) { g.lf = x; };
    if (prop == "C01" || prop == "C02") {
        p.oracle = prop == "C01" ? O_POINT : O_RANGE;
        g.kinds = "ISD";
        for (auto &sh : {F8, F16p, SS}) g.related(sh, 5, WIDE, CENTRE, FLIPS, 3, th ? 5 : sh.type == "fix8" ? 5 : 4);
        for (auto w : {2u, 12u}) for (auto &sh : {F8, V}) g.related(sh, w, WIDE, CENTRE, FLIPS, 3, th ? 5 : 4);
        g.related(F4, 5, WIDE, CENTRE, {-1, 3, 9, 12, 13, 14, 20, 31}, 3, th ? 5 : 4);
        g.related(F16s, 5, NARROW, CENTRE, {-1, 33, 40, 46, 47, 48, 63}, 3, th ? 5 : 4);
        for (auto w : th ? vector<uint32_t>{2, 5, 9, 16} : vector<uint32_t>{2, 5}) { strings(g, "var", w, th ? 4 : 3, 4, "ISD"); strings(g, "sstr", w, th ? 4 : 3, th ? 4 : 2, "ISD"); }
        clusters(g, F8, 5, th, th ? 4 : 3, "ID"); if (th) clusters(g, F16p, 8, th, 3, "ID");
        resizes(g, F8, 5, th, 3, "ID"); resizes(g, V, 3, th, 2, "ID");
        ramps(g, F8, 5, 4, true, th); ramps(g, SS, 8, 6, true, th); if (th) { ramps(g, F16p, 3, 2, true, th); ramps(g, V, 12, 2, true, th); }
        big_ramps(g, F8, 5, th ? 2600 : 1300, th ? 40 : 90, true);
        loads(g, {F8, SS}, {5}, {2, 3, 1025}, 1, "ISD", false);
        { const uint32_t cap = g.probe_cap; g.probe_cap = 6; g.kinds = "ISD"; g.related(VL, 5, WIDE, CENTRE, {-1, 3, 13}, 3, 2); g.related(SL, 5, WIDE, CENTRE, {-1, 3, 13}, 3, 2); g.probe_cap = cap; }
        for (auto &sh : {I, SI}) g.related(sh, 5, WIDE, CENTRE, FLIPS, 3, th ? 5 : 4);
        for (auto w : {2u, 12u, 24u}) g.related(I, w, WIDE, CENTRE, FLIPS, 3, th ? 5 : 3);
        g.related(I, 5, NARROW, CENTRE, {-1, 33, 40, 46, 47, 48, 63}, 3, th ? 5 : 4); g.related(I, 5, TIGHT, CENTRE, {-1, 57, 58, 59, 60, 62, 63}, 3, th ? 5 : 4); g.related(I, 5, {7, 9}, 8, {-1, 63, 0, 1, 30, 59, 60, 61}, 3, th ? 4 : 3);
        clusters(g, I, 5, th, 3, "ID"); resizes(g, I, 5, th, 2, "ID"); ramps(g, I, 5, 8, true, th);
        for (auto &sh : {I, F8}) midlines(g, sh, 8, th, th ? 3 : 2, "ID"); midlines(g, V, 6, false, th ? 3 : 1, "ID");
        for (auto &sh : {I, F8, V}) for (uint32_t n : {28u, 31u, 40u, 70u}) g.boundaries(sh, 5, n, th ? 3 : 2);
        for (auto &t : {"var", "sstr"}) string_loads(g, t, 5, 2, 1, "ID");
        loads(g, {I, SI}, {5}, {2, 3, 1025}, 1, "ISD", false);
        wide(g, th, {1, 16, 24, 32, 40, 46}, {I, F8, F16p, V, SS}, th ? 5 : 4); strings(g, "var", 33, 3, 4, "ISD"); strings(g, "sstr", 26, 3, 2, "ISD");
        for (auto w : {23u, 34u}) { clusters(g, I, w, false, 2, "ID"); resizes(g, F8, w, false, 2, "ID"); midlines(g, I, w, false, 1, "ID"); g.boundaries(I, w, 40, 2); ramps(g, F8, w, 8, true, false); }
        p.bounds = "all sequences of insert, boundary-making insert and delete up to depth 3-5 over all 3-subsets of 7-8 keys per shape (fixed 4, 8 and 16 bytes, strings), infix widths 1 to 46; all sequences over 8 string alphabets with prefix and zero-byte relations; all insert/delete sequences at every tested window of 64- and 1077-slot stores; around every size change; fill/empty ramps in 4x4 orders";
    } else if (prop == "C03") {
        p.oracle = O_TWIN | O_POINT | O_RANGE; g.kinds = "ISD"; g.probe_cap = 18;
        g.related(I, 5, WIDE, CENTRE, FLIPS, 3, th ? 5 : 4);
        for (auto w : {2u, 12u, 30u}) g.related(I, w, WIDE, CENTRE, FLIPS, 3, th ? 4 : 3);
        g.related(SI, 5, WIDE, CENTRE, FLIPS, 3, th ? 4 : 3);
        g.related(I, 5, NARROW, CENTRE, {-1, 33, 40, 46, 47, 48, 63}, 3, th ? 5 : 4);
        g.related(I, 5, TIGHT, CENTRE, {-1, 57, 58, 59, 60, 62, 63}, 3, th ? 5 : 4);
        g.related(I, 5, {7, 9}, 8, {-1, 63, 0, 1, 30, 59, 60, 61}, 3, th ? 4 : 3);
        clusters(g, I, 5, th, th ? 4 : 3, "ID"); resizes(g, I, 5, th, 2, "ID");
        ramps(g, I, 5, 5, true, th); ramps(g, SI, 12, 10, true, th); big_ramps(g, I, 8, th ? 2600 : 1300, th ? 60 : 120, true);
        loads(g, {I, SI}, {5}, {1, 2, 3, 1024, 1025, 2049}, 1, "ISD");
        g.extra = {{'H', "", 3}}; g.related(I, 6, WIDE, CENTRE, {-1, 3, 12, 13, 20}, 3, 3);
        midlines(g, I, 8, th, th ? 3 : 2, "ID"); for (uint32_t n : {28u, 31u, 40u, 70u}) g.boundaries(I, 5, n, th ? 3 : 2);
        g.extra.clear(); wide(g, th, {24, 36, 46}, {I, SI}, th ? 5 : 4);
        p.bounds = "lock-step twins: the integer filter and the byte-string filter execute the same history, all answers on all probe pairs compared in every state; sequences to depth 3-5 over 3-subsets of up to 8 keys, infix widths 2-46, shared prefixes 1, 32 and 56 bits";
    } else if (prop == "C04") {
        p.oracle = O_POINT | O_RANGE; g.kinds = "ISD";
        const vector<size_t> small = {1, 2, 3, 4, 5}, groups = {1023, 1024, 1025, 1026, 2048, 2049, 2050};
        loads(g, {I, SI, F8, F16p, SS, V, F4}, {5}, small, 2, "ISD");
        loads(g, {I, SI, F8, SS, V}, {5}, groups, 1, "ISD");
        loads(g, {F4, F16s, F16p}, {8}, groups, 0, "ISD", th);
        if (th) { loads(g, {I, SI, F8, SS, V}, {2, 12, 24}, groups, 0, "I"); loads(g, {I, SI, F8, SS, V}, {5}, {6, 31, 60, 61, 100, 500, 1022, 1027, 1500, 2047, 3072, 3073, 3074, 4097, 5121}, 0, "I"); }
        else loads(g, {I, SI, SS}, {2, 16}, {100, 3073}, 0, "I", false);
        for (auto &t : {"var", "sstr"}) for (auto w : {5u, 12u}) string_loads(g, t, w, th ? 4 : 3, w == 5 ? 1 : 0, "ISD");
        { vector<size_t> all; for (size_t n = 6; n < 140; n += th ? 1 : 3) all.push_back(n); for (size_t n = 1000; n < 1100; n += th ? 3 : 17) all.push_back(n); for (size_t n : {2030, 2047, 2060, 3071, 3072, 3080, 4096, 4097, 5121, 6145, 8193}) all.push_back(n);
          loads(g, {I, F8, V}, {5}, all, 0, "I", false);
          loads(g, {SI, SS, F16p}, {3, 9}, {17, 61, 130, 1040, 5121, 10241}, 0, "I", false);
          loads(g, {I, V}, {20, 28, 40}, {2, 64, 1025, 2050}, 0, "I"); loads(g, {I, SI, V}, {5}, {20481, 50000}, 0, "I", false); loads(g, {I, SI, F8, SS, V, F16p}, {7}, {7, 40, 150, 1030, 1100}, 1, "ISD"); if (th) loads(g, {I, F8, SS}, {11}, {120000}, 0, "I", false); }
        p.oracle |= O_LOADERS;
        p.bounds = "loaders x sizes {1..140 in steps of 3, 1000..1100 in steps of 17, 1023-1026, 2030-10241 around multiples of 1024} x 4 key distributions x {smallest key or not} x {largest key or not}, infix widths 2 to 28; every loaded key queried as point and as range; loaders of the same key type compared image for image; all continuations of depth 1-2";
    } else if (prop == "C05") {
        p.oracle = O_POINT | O_RANGE; g.kinds = "ISD"; g.probe_cap = 14;
        for (auto &sh : {I, F8}) g.related(sh, 5, WIDE, CENTRE, FLIPS, 3, th ? 6 : 5);
        g.related(I, 2, WIDE, CENTRE, FLIPS, 3, th ? 5 : 4); g.related(V, 12, WIDE, CENTRE, FLIPS, 3, 4);
        strings(g, "var", 5, th ? 5 : 4, 3, "ISD"); strings(g, "sstr", 2, th ? 4 : 3, 2, "ISD");
        for (auto &sh : {I, F8}) { clusters(g, sh, 5, th, th ? 5 : 4, "ID"); resizes(g, sh, 5, th, th ? 4 : 3, "ID"); }
        ramps(g, I, 5, 3, true, th); ramps(g, V, 4, 4, true, th); ramps(g, F8, 16, 4, true, th);
        big_ramps(g, I, 5, th ? 2600 : 1300, th ? 30 : 60, true);
        loads(g, {I, F8, SS, V}, {5}, {1, 2, 3, 1025}, 2, "ISD", true);
        for (auto &sh : {I, F8}) midlines(g, sh, 8, th, th ? 3 : 2, "ID"); midlines(g, V, 6, false, th ? 3 : 2, "ID");
        for (auto &sh : {I, F8, V}) for (uint32_t n : {28u, 31u, 40u, 70u}) g.boundaries(sh, 5, n, th ? 4 : 3);
        wide(g, th, {1, 23, 32, 46}, {I, F8, F16p, SS}, th ? 5 : 4); for (float l : {0.4f, 0.99f}) { lf(l); clusters(g, I, 6, false, 2, "ID"); resizes(g, V, 6, th, 2, "ID"); ramps(g, F8, 6, 8, true, false); } lf(0.95f); strings(g, "var", 30, th ? 4 : 3, 2, "ISD"); for (auto w : {28u, 41u}) { clusters(g, I, w, false, 3, "ID"); g.boundaries(F8, w, 40, 2); }
        p.bounds = "all interleavings of insert, boundary-making insert and delete up to depth 4-5 (6 thorough) over 3-subsets of 8 keys with up to two copies each; string alphabets; windows of stores and size changes; ramps that empty the filter in 4 orders; infix widths 1 to 46, load factors 0.4 to 0.99";
    } else if (prop == "C06") {
        p.oracle = O_POINT | O_RANGE | O_FOOTPRINT; g.kinds = "ISD"; g.probe_cap = 16;
        auto hs = [&](std::initializer_list<int> l) { g.extra.clear(); for (int x : l) g.extra.push_back({'H', "", (uint32_t) x}); };
        hs({4, 2, 1}); for (auto &sh : {I, F8}) g.related(sh, 5, WIDE, CENTRE, {-1, 3, 12, 13, 14, 20}, 3, th ? 5 : 4);
        hs({9, 3, 1}); for (auto &sh : {I, V}) g.related(sh, 12, WIDE, CENTRE, {-1, 3, 12, 14, 20, 24}, 3, th ? 5 : 4);
        hs({20, 12}); for (auto &sh : {SI, F16p, SS}) g.related(sh, 26, WIDE, CENTRE, {-1, 3, 13, 22, 30, 34, 35}, 3, th ? 5 : 4);
        hs({6, 2}); g.related(I, 8, NARROW, CENTRE, {-1, 33, 40, 46, 47, 48, 63}, 3, th ? 5 : 4); g.related(F16s, 8, TIGHT, CENTRE, {-1, 57, 58, 59, 60, 62, 63}, 3, th ? 5 : 4); g.related(F4, 7, WIDE, CENTRE, {-1, 3, 9, 12, 13, 14, 20, 31}, 3, th ? 5 : 4);
        hs({4, 1}); for (auto t : {"var", "sstr"}) strings(g, t, 5, th ? 4 : 3, 4, "ISD");
        hs({7, 4, 3, 1}); for (auto &sh : {I, F8}) { clusters(g, sh, 8, th, 3, "ID"); resizes(g, sh, 8, th, 2, "ID"); }
        hs({5, 2}); for (auto &sh : {I, V}) { midlines(g, sh, 8, th, th ? 3 : 2, "ID"); for (uint32_t n : {28u, 31u, 40u, 70u}) g.boundaries(sh, 6, n, 2); }
        for (auto &s : g.out) s.max_h = 2;
        // one store of every size grade, shrunk by every amount
        for (uint32_t w : th ? vector<uint32_t>{5, 8, 13, 24} : vector<uint32_t>{5, 9}) {
            g.extra.clear();
            for (uint32_t n = 10; n < (th ? 2600u : 1500u); n = n < 100 ? n + 7 : n + n / 12) for (int to : {(int) w - 1, (int) w / 2, 1}) {
                vector<Op> ops; U ks = scrambled(n, (1ULL << 63) + 1, (1ULL << 63) - 2); for (auto k : ks) ops.push_back({'I', k64(k)});
                ops.push_back({'H', "", (uint32_t) to}); if (to > 1) ops.push_back({'H', "", (uint32_t) to - 1});
                for (size_t i = 0; i < ks.size(); i += 5) ops.push_back({'D', k64(ks[i])});
                for (size_t i = 0; i < ks.size(); i += 7) ops.push_back({'I', k64(ks[i])});
                g.ramp(strf("grade w%u n%u to%d", w, n, to), n % 2 ? I : F8, w, shape_keys(I, BIGSTORE), ops, 100000, {ops[0].key, ops[n / 2].key});
                g.out.back().every_h = true;
            }
        }
        hs({4, 3, 2, 1}); loads(g, {I, F8, SS, V}, {5}, {1, 2, 1025, 2050}, 2, "ID", false); hs({9, 2}); loads(g, {SI, F16p, F4, SL}, {10}, {1, 3, 60, 1030}, 1, "ISD", false);
        p.bounds = "histories to depth 4-5 with reductions (up to two) at every position; reductions of a store of every size grade by several amounts, followed by deletes and inserts";
    } else if (prop == "C07") {
        p.oracle = O_ROUND | O_POINT | O_RANGE; g.kinds = "ISD"; g.probe_cap = 12;
        g.extra = {{'R', "", 0}};
        for (auto &sh : {I, F8}) g.related(sh, 5, WIDE, CENTRE, {-1, 3, 12, 13, 14, 20, 40}, 3, th ? 5 : 4);
        lf(0.75f); g.related(I, 12, WIDE, CENTRE, {-1, 3, 12, 13, 20}, 3, 4); lf(0.9f); g.related(V, 2, WIDE, CENTRE, {-1, 3, 12, 13, 20}, 3, th ? 4 : 3); lf(0.95f);
        strings(g, "var", 5, 3, 3, "ISD"); strings(g, "sstr", 3, 3, 2, "ISD");
        g.extra.push_back({'H', "", 3});
        clusters(g, I, 5, th, 3, "ID");
        for (float l : {0.5f, 0.8f, 0.95f, 0.99f}) { lf(l); resizes(g, I, 5, th, 2, "ID"); if (th || l == 0.8f) resizes(g, F8, 5, th, 2, "ID"); } lf(0.95f);
        loads(g, {I, SI, F8, SS, V, F16p}, {5}, {1, 2, 1025, 2050}, 1, "IS", false);
        lf(0.6f); loads(g, {I, SS}, {9}, {3, 1030}, 1, "I", false); lf(0.95f);
        for (auto &sh : {I, V}) for (float l : {0.7f, 0.95f}) { lf(l);
            for (size_t i = g.out.size(), e = (ramps(g, sh, 6, 25, true, th), g.out.size()); i < e; i++) {
                auto &o = g.out[i].ops; vector<Op> n; for (size_t k = 0; k < o.size(); k++) { n.push_back(o[k]); if (k % 37 == 36) n.push_back({'R', "", 0}); } o = n; } }
        { const uint32_t cap = g.probe_cap; g.probe_cap = 6; g.kinds = "ISD"; g.related(VL, 5, WIDE, CENTRE, {-1, 3, 13}, 3, 2); g.related(SL, 5, WIDE, CENTRE, {-1, 3, 13}, 3, 2); g.probe_cap = cap; }
        for (auto &sh : {I, V}) for (uint32_t n : {31u, 40u, 70u}) g.boundaries(sh, 5, n, 2);
        wide(g, th, {33, 46}, {I, F8, SS}, th ? 4 : 3);
        p.bounds = "a round trip through serialise/restore at every position of histories to depth 3-5, load factors 0.5-0.99, then lock-step continuation of the original and the restored filter with images compared byte for byte; buffers with guard bytes, overwritten after restoring";
    } else if (prop == "C08") {
        p.oracle = O_PRECISE; g.probe_cap = 30; g.edges = true;
        for (auto w : {2u, 5u, 12u}) for (auto &sh : {I, F8, F16p}) {
            g.kinds = "ID"; g.related(sh, w, WIDE, CENTRE, FLIPS, 3, th ? 5 : 4);
            g.kinds = "IS"; g.related(sh, w, WIDE, CENTRE, FLIPS, 3, th ? 5 : 4);
            g.kinds = "ISD"; g.related(sh, w, WIDE, CENTRE, FLIPS, 3, th ? 4 : 3);
        }
        for (auto k : {"ID", "IS", "ISD"}) { g.kinds = k; g.related(I, 5, NARROW, CENTRE, {-1, 33, 40, 46, 47, 48, 63}, 3, th ? 5 : 3); g.related(F8, 8, TIGHT, CENTRE, {-1, 57, 58, 59, 60, 62, 63}, 3, th ? 5 : 3); g.related(F16s, 5, NARROW, CENTRE, {-1, 33, 40, 46, 47, 48, 63}, 3, th ? 5 : 3); }
        for (auto &sh : {I, F8, F16p}) for (auto &b : {WIDE, NARROW, TIGHT}) for (auto k : {"ID", "ISD"}) {      // loaded boundary keys are deleted, too
            g.extra.clear(); for (auto x : b) g.extra.push_back({'D', shape_key(sh, x)});
            g.kinds = k; g.related(sh, 5, b, CENTRE, b[0] == TIGHT[0] ? vector<int>{-1, 57, 59, 60, 62, 63} : b[0] == NARROW[0] ? vector<int>{-1, 33, 40, 46, 47, 63} : vector<int>{-1, 3, 13, 14, 20, 63}, 3, th ? 5 : k == string("ID") ? 4 : 3);
        }
        g.extra.clear();
        g.kinds = "ID"; g.related(I, 5, WIDE, CENTRE, {-1, 3, 12, 13, 14, 20, 40}, 3, th ? 6 : 5);
        for (auto &sh : {I, F8}) { clusters(g, sh, 5, th, th ? 4 : 3, "ID"); resizes(g, sh, 5, th, 3, "ID"); }
        ramps(g, I, 5, 4, true, th, false); ramps(g, F8, 8, 4, true, th, false); ramps(g, I, 5, 4, false, th); ramps(g, SS, 8, 6, false, th);
        strings(g, "var", 5, 3, 3, "ID"); strings(g, "sstr", 8, 3, 3, "ID"); g.kinds = "IS"; g.related(V, 5, WIDE, CENTRE, FLIPS, 3, 4);
        loads(g, {I, SI, F8, SS, V}, {5, 12}, {1, 2, 3, 1025, 2050}, 1, "ID", true);
        g.extra = {{'H', "", 3}}; g.kinds = "ID"; g.related(I, 6, WIDE, CENTRE, {-1, 3, 12, 13, 14, 20}, 3, 4);
        for (auto &sh : {I, F8}) midlines(g, sh, 8, th, th ? 3 : 2, "ID");
        g.extra.clear(); for (auto k : {"ID", "IS", "ISD"}) { g.kinds = k; wide(g, th, {1, 20, 26, 46}, {I, F8, F16p}, th ? 4 : k == string("ISD") ? 3 : 4); }
        p.bounds = "all point and range queries over probes at and around the edges of the blocks of every key, in every state of insert/delete, insert/boundary-making-insert and mixed histories to depth 3-5, with deletion of loaded boundary keys, between boundary keys that share 0 to 64 bits and more, infix widths 1 to 46";
    } else if (prop == "C09") {
        p.oracle = O_PURE; g.kinds = "ISD"; g.probe_cap = 14;
        for (auto &sh : {I, F8}) g.related(sh, 5, WIDE, CENTRE, {-1, 3, 12, 13, 14, 20, 40}, 3, th ? 5 : 4);
        g.related(V, 2, WIDE, CENTRE, {-1, 3, 12, 13, 14, 20}, 3, th ? 5 : 4);
        strings(g, "var", 5, 3, 4, "ISD"); strings(g, "sstr", 5, 3, 2, "ISD");
        g.extra = {{'H', "", 3}};
        for (auto &sh : {I, F8}) { clusters(g, sh, 5, th, 3, "ID"); resizes(g, sh, 5, th, 2, "ID"); }
        g.extra.clear();
        ramps(g, I, 5, 15, true, th); ramps(g, F8, 8, 15, true, th);
        loads(g, {I, SI, F8, SS, V, F16p}, {5}, {1, 2, 1025, 2050}, 1, "IS", true);
        for (auto &sh : {I, V}) for (uint32_t n : {31u, 40u, 70u}) g.boundaries(sh, 5, n, 2);
        wide(g, th, {26, 46}, {I, F8, SS}, th ? 4 : 3);
        p.bounds = "in every state of histories to depth 3-5: all probe queries twice in opposite orders with the image compared before, between and after, against a twin that executes the same updates without any query";
    } else if (prop == "C10") {
        p.oracle = O_MEMORY; g.kinds = "ISD"; g.probe_cap = 8;
        g.extra = {{'H', "", 3}, {'R', "", 0}};
        for (auto &sh : {I, F8, V}) g.related(sh, 5, WIDE, CENTRE, {-1, 3, 13, 14, 20}, 3, th ? 4 : 3);
        g.related(F16p, 12, WIDE, CENTRE, {-1, 3, 12, 20}, 3, th ? 4 : 3); g.related(F4, 2, WIDE, CENTRE, {-1, 3, 12, 20}, 3, th ? 4 : 3);
        strings(g, "var", 5, 2, 4, "ISD"); strings(g, "sstr", 3, 2, 2, "ISD");
        g.extra.pop_back();
        for (auto &sh : {I, F8}) { clusters(g, sh, 5, th, 2, "ID"); resizes(g, sh, 5, th, 2, "ID"); }
        clusters(g, I, 12, th, 2, "ID"); resizes(g, V, 8, th, 2, "ID");
        ramps(g, I, 5, 25, true, th); ramps(g, F8, 8, 25, true, th); ramps(g, SS, 12, 25, true, th);
        g.extra = {{'R', "", 0}};
        loads(g, {I, SI, F8, SS, V, F16p}, {5}, {1, 2, 3, 1024, 1025, 2050}, 1, "ISD", true);
        { const uint32_t cap = g.probe_cap; g.probe_cap = 6; g.kinds = "ISD"; g.related(VL, 5, WIDE, CENTRE, {-1, 3, 13}, 3, 2); g.related(SL, 5, WIDE, CENTRE, {-1, 3, 13}, 3, 2); g.probe_cap = cap; }
        g.extra.clear(); for (auto &sh : {I, V}) for (uint32_t n : {31u, 40u, 70u}) g.boundaries(sh, 5, n, th ? 2 : 1);
        midlines(g, I, 8, false, 1, "ID"); for (auto &t : {"var", "sstr"}) string_loads(g, t, 5, 2, 1, "ID");
        g.kinds = "ISD"; g.extra = {{'R', "", 0}, {'H', "", 5}}; wide(g, th, {24, 32, 46}, {I, F8, SS}, th ? 4 : 3); g.extra.clear();
        for (auto w : {24u, 40u}) { clusters(g, I, w, false, 1, "ID"); resizes(g, F8, w, false, 1, "ID"); ramps(g, I, w, 40, true, false); }
        p.bounds = "histories to depth 2-4 including queries, reductions, round trips and destruction, every execution under address and undefined-behaviour instrumentation with exact-size key buffers, every block the library allocated accounted for after destruction";
    }
    p.scenarios = std::move(g.out);
    return p;
}
} // namespace vf
