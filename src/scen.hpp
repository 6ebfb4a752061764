// The bounded spaces of behaviours: key alphabets, starting states and depths.
#pragma once
#include "fx.hpp"

namespace vf {
typedef vector<uint64_t> U;

// Key shapes: how a 64-bit pattern becomes a key of the filter type under test.
struct Shape { string type; int kind; };    // kind: 0 plain, 1 twelve-byte prefix, 2 odd prefix, 3 trailing zeros stripped, 4 suffix
inline string shape_key(const Shape &s, uint64_t v) {
    string k = k64(v);
    switch (s.kind) {
        case 0: break;
        case 1: k = string("\x31\x7f\xff\x80", 4) + string("\x00\xff\xaa\x55", 4) + k; break;       // 16 bytes
        case 2: k = string("\x61\xff\x7f", 3) + k; break;                                            // 11 bytes
        case 3: while (k.size() > 1 && k.back() == 0) k.pop_back(); break;
        case 4: k = k + string("\x80\x00\x01\xff\x7f\x10\x00\x01", 8); break;                      // 16 bytes
        case 5: k.resize(4); break;
        case 6: k = string(20993, '\x5a') + k; break;                                              // long keys
    }
    return k;
}
inline vector<string> shape_keys(const Shape &s, const U &v) {
    std::set<string> r; for (auto x : v) r.insert(shape_key(s, x)); return vector<string>(r.begin(), r.end());
}

inline void add_near(std::set<string> &p, const string &k, uint32_t infix, bool var) {
    p.insert(k);
    if (!var) {
        string a = k, b = k; int i = (int) a.size() - 1;
        while (i >= 0 && ++a[i] == 0) i--;
        if (i >= 0) p.insert(a);
        i = (int) b.size() - 1; while (i >= 0 && b[i]-- == 0) i--;
        if (i >= 0) p.insert(b);
    } else {
        p.insert(k + string(1, '\0')); p.insert(k + "\xff");
        if (k.size() > 1) p.insert(k.substr(0, k.size() - 1));
    }
}
// Probes: the keys, their immediate neighbours, and both edges of the blocks they fall in.
inline vector<string> make_probes(const Shape &s, const vector<string> &keys, uint32_t infix, size_t cap, uint32_t common = 0, const vector<string> &more = {}) {
    std::set<string> p(more.begin(), more.end()); cap += p.size(); const bool var = s.type == "var" || s.type == "sstr";
    for (auto &k : keys) p.insert(k);
    for (auto &k : keys) if (p.size() < cap) add_near(p, k, infix, var);
    for (auto &k : keys) {
        if (p.size() >= cap) break;
        for (uint32_t bits : {common + 10 + infix, common + 9 + infix - 1}) {
            string lo = Model::floor_bits(k, bits, k.size()), hi = Model::ceil_bits(k, bits, k.size());
            lo.resize(k.size(), '\0');
            p.insert(lo); p.insert(hi);
            if (!var) { std::set<string> q; add_near(q, lo, infix, var); add_near(q, hi, infix, var); p.insert(q.begin(), q.end()); }
        }
    }
    return vector<string>(p.begin(), p.end());
}
inline vector<Op> make_alphabet(const string &kinds, const vector<string> &keys) {
    vector<Op> a; for (char k : kinds) for (auto &x : keys) a.push_back({k, x}); return a;
}

struct Gen {
    vector<Scenario> out;
    string kinds;                   // operations of interest
    bool thorough = false;
    vector<Op> extra;               // H/R operations added to every alphabet
    uint32_t probe_cap = 26;
    float lf = 0.95f;
    bool edges = false;             // probe the block edges relative to the boundary keys around the keys
    vector<string> more;            // further probes

    void tree(const string &name, const Shape &sh, uint32_t infix, const vector<string> &base, const vector<string> &keys,
              int depth, const vector<Op> &pre = {}, uint32_t max_s = 99, uint32_t max_copies = 2, const string &kk = "") {
        Scenario s; s.name = name; s.cfg.type = sh.type; s.cfg.infix = infix; s.cfg.lf = lf; s.cfg.base = base; s.cfg.pre = pre;
        vector<string> pk = keys; for (auto &b : base) if (pk.size() < 8) pk.push_back(b);
        s.cfg.probes = make_probes(sh, pk, infix, probe_cap, edges && base.size() == 2 && keys[0] > base[0] && keys.back() < base[1] ? shared_bits(base[0], base[1]) : 0, more);
        s.alphabet = make_alphabet(kk.empty() ? kinds : kk, keys); s.depth = depth; s.max_s = max_s; s.max_copies = max_copies;
        for (auto &e : extra) s.alphabet.push_back(e);
        out.push_back(s);
    }
    void ramp(const string &name, const Shape &sh, uint32_t infix, const vector<string> &base, const vector<Op> &ops, uint32_t every, const vector<string> &pk) {
        Scenario s; s.name = name; s.cfg.type = sh.type; s.cfg.infix = infix; s.cfg.lf = lf; s.cfg.base = base; s.ramp = true; s.ops = ops; s.every = every;
        s.cfg.probes = make_probes(sh, pk, infix, probe_cap);
        out.push_back(s);
    }

    // F1: every 3-subset of keys that differ at chosen bit positions from a centre
    void related(const Shape &sh, uint32_t infix, const U &base, uint64_t centre, const vector<int> &flips, size_t subset, int depth, uint32_t max_s = 99, const string &kk = "") {
        vector<string> keys;
        for (int x : flips) keys.push_back(shape_key(sh, x < 0 ? centre : (centre ^ (1ULL << (63 - x)))));
        std::sort(keys.begin(), keys.end()); keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
        const auto b = shape_keys(sh, base);
        if (edges) more = keys;
        vector<size_t> idx(subset); std::function<void(size_t, size_t)> rec = [&](size_t pos, size_t from) {
            if (pos == subset) { vector<string> ks; string nm; for (auto i : idx) { ks.push_back(keys[i]); nm += strf("-%zu", i); }
                tree(strf("related %s%d w%u%s", sh.type.c_str(), sh.kind, infix, nm.c_str()), sh, infix, b, ks, depth, {}, max_s, 2, kk); return; }
            for (size_t i = from; i < keys.size(); i++) { idx[pos] = i; rec(pos + 1, i + 1); }
        };
        rec(0, 0); more.clear();
    }

    // F2: clusters at chosen slots of one store.  big: 1077 slots (between 0x80.. and the end), else 64 slots.
    static uint64_t slot_key(uint64_t implicit, uint64_t expl, uint32_t infix) { return 1ULL << 63 | implicit << 53 | expl << (53 - infix); }
    void cluster(const Shape &sh, uint32_t infix, bool big, int64_t window, uint32_t fill, int depth, int spread = 1, const string &kk = "ID") {
        const U base = big ? U{1ULL << 62, 1ULL << 63} : U{1ULL << 63, ~0ULL - 1};
        const uint64_t top = 1ULL << (infix - 1);      // explicit part without its last, implied bit
        const uint32_t step = big ? 1 : 16;            // implicit distance between neighbouring slots
        vector<Op> pre; std::set<uint64_t> used; vector<string> keys;
        auto imp = [&](int64_t i) { return (uint64_t) std::min<int64_t>(1023, std::max<int64_t>(0, i)); };
        for (uint32_t i = 0; i < fill; i++) {           // background: consecutive runs before and after the window
            const int64_t off = (int64_t) (i / 2 + 1) * step * (i % 2 ? 1 : -1);
            const uint64_t p = imp(window * step + off);
            pre.push_back({'I', shape_key(sh, slot_key(p, (i * 2 + 1) % (2 * top), infix))});
        }
        const int64_t c = window * step;
        vector<uint64_t> ks = {slot_key(imp(c), 1, infix), slot_key(imp(c), 2 * top - 1, infix), slot_key(imp(c + spread), 3 % (2 * top), infix), slot_key(imp(c - spread), 1, infix)};
        std::set<string> u; for (auto k : ks) u.insert(shape_key(sh, k));
        keys.assign(u.begin(), u.end());
        for (size_t i = 0; i < pre.size() && keys.size() < 5; i += std::max<size_t>(1, pre.size() - 1)) keys.push_back(pre[i].key);
        tree(strf("cluster %s%d w%u %s window %ld fill %u", sh.type.c_str(), sh.kind, infix, big ? "big" : "small", (long) window, fill), sh, infix,
             shape_keys(sh, base), keys, depth, pre, 1, 2, kk);
    }

    // F3: a store filled to just below / above a size change
    void resize(const Shape &sh, uint32_t infix, bool big, uint32_t count, int depth, bool dense, const string &kk = "ID") {
        const U base = big ? U{1ULL << 62, 1ULL << 63} : U{1ULL << 63, ~0ULL - 1};
        vector<Op> pre; const uint64_t top = 1ULL << (infix - 1);
        auto key = [&](uint64_t i) { const uint64_t p = dense ? (i / top) : (i * 1021 / std::max(1u, count + 4)) ; return slot_key(p % 1024, (dense ? (i % top) * 2 + 1 : (i * 2 + 1) % (2 * top)), infix); };
        for (uint32_t i = 0; i < count; i++) pre.push_back({'I', shape_key(sh, key((i * 7919ULL) % count))});
        std::set<string> ks = {shape_key(sh, key(0)), shape_key(sh, key(count / 2)), shape_key(sh, key(count + 1)), shape_key(sh, slot_key(1023, 2 * top - 1, infix))};
        tree(strf("resize %s%d w%u %s %u", sh.type.c_str(), sh.kind, infix, big ? "big" : "small", count), sh, infix, shape_keys(sh, base),
             vector<string>(ks.begin(), ks.end()), depth, pre, 1, 2, kk);
    }

    // F3b: a store of just over 512 slots whose last slots are full, so that updates near its end move entries
    // towards the front, across the middle of its bitmaps
    void midline(const Shape &sh, uint32_t infix, uint32_t low, uint32_t tail, int runs, int depth, const string &kk = "ID") {
        U base = {1ULL << 63, ~0ULL - 1};
        vector<Op> pre; const uint64_t top = 1ULL << (infix - 1);
        for (uint32_t j = 0; j < low; j++) base.push_back(slot_key(1 + j * 970ULL / low, (j * 2 + 1) % (2 * top), infix) | (infix < 50 ? 1 : 0));
        auto tkey = [&](uint32_t i) { return shape_key(sh, slot_key(1023 - (runs - 1 - i % runs), ((i / runs) * 2 + 3) % (2 * top) | 1, infix)); };
        for (uint32_t i = 0; i < tail; i++) pre.push_back({'I', tkey(i)});
        std::set<string> ks = {tkey(0), tkey(tail / 2), tkey(tail > 1 ? tail - 2 : 0), tkey(tail - 1), shape_key(sh, slot_key(1023, 2 * top - 1, infix)), shape_key(sh, slot_key(1023, 1, infix)), shape_key(sh, slot_key(1000, 1, infix))};
        tree(strf("midline %s%d w%u low%u tail%u runs%d", sh.type.c_str(), sh.kind, infix, low, tail, runs), sh, infix, shape_keys(sh, base), vector<string>(ks.begin(), ks.end()), depth, pre, 1, 2, kk);
    }
    // F5: many boundary keys, so that the index itself splits and merges its nodes
    void boundaries(const Shape &sh, uint32_t infix, uint32_t n, int depth, const string &kk = "ISD") {
        const uint64_t from = sh.kind == 5 ? 1ULL << 40 : 1ULL << 56;
        U v; for (uint32_t i = 0; i < n; i++) v.push_back(from + i * ((~0ULL >> 1) / n));
        vector<Op> pre; for (auto i : order(n, 2)) pre.push_back({'S', shape_key(sh, v[i])});
        for (uint32_t i = 0; i < n; i += 3) pre.push_back({'I', shape_key(sh, v[i] + (1ULL << 44) + i)});
        std::set<string> ks = {shape_key(sh, v[0]), shape_key(sh, v[n / 2]), shape_key(sh, v[n / 2 - 1]), shape_key(sh, v[n - 1]), shape_key(sh, v[n / 2] + (1ULL << 45)), shape_key(sh, ~0ULL - (1ULL << 50))};
        tree(strf("boundaries %s%d w%u n%u", sh.type.c_str(), sh.kind, infix, n), sh, infix, shape_keys(sh, {1ULL << 40, ~0ULL - (1ULL << 40)}), vector<string>(ks.begin(), ks.end()), depth, pre, 2, 2, kk);
    }

    static vector<size_t> order(size_t n, int kind) {
        vector<size_t> r;
        if (kind == 0) for (size_t i = 0; i < n; i++) r.push_back(i);
        else if (kind == 1) for (size_t i = n; i-- > 0;) r.push_back(i);
        else if (kind == 2) { size_t b = 1; while ((1u << b) < n) b++; for (size_t i = 0; i < (1u << b); i++) { size_t x = 0; for (size_t j = 0; j < b; j++) if (i >> j & 1) x |= 1u << (b - 1 - j); if (x < n) r.push_back(x); } }
        else { for (size_t i = 0; i < n; i++) r.push_back(i % 2 ? n - 1 - i / 2 : i / 2); }
        return r;
    }
    // F4: long monotone histories: fill in one order, delete in another; split_every: every n-th insert makes a boundary
    void long_ramp(const Shape &sh, uint32_t infix, const U &keys, int ins, int del, uint32_t split_every, uint32_t every, const U &base, bool deletes = true) {
        vector<Op> ops; vector<string> ks; for (auto k : keys) ks.push_back(shape_key(sh, k));
        uint32_t n = 0; for (auto i : order(ks.size(), ins)) { n++; ops.push_back({split_every && n % split_every == 0 ? 'S' : 'I', ks[i]}); }
        if (deletes) for (auto i : order(ks.size(), del)) ops.push_back({'D', ks[i]});
        vector<string> pk = {ks[0], ks[ks.size() / 3], ks[ks.size() / 2], ks.back()};
        ramp(strf("ramp %s%d w%u n%zu ins%d del%d split%u", sh.type.c_str(), sh.kind, infix, ks.size(), ins, del, split_every), sh, infix, shape_keys(sh, base), ops, every, pk);
    }
};

inline U spaced(size_t n, uint64_t from, uint64_t step) { U r; for (size_t i = 0; i < n; i++) r.push_back(from + i * step); return r; }
inline U scrambled(size_t n, uint64_t from, uint64_t range) { std::set<uint64_t> s; uint64_t x = 0x9E3779B97F4A7C15ULL; while (s.size() < n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s.insert(from + (x % range)); } return U(s.begin(), s.end()); }

// Every load of one to `most` keys from an alphabet of strings that vary in length, down to and up to the ends of the key space
inline vector<vector<string>> load_sets(size_t most) {
    vector<string> a; for (auto x : {"0001", "01", "0100", "0161", "61", "6100", "616161616161616161", "6162", "ff", "ff00", "ff01", "ffff", "ffff0101", "ffffffffffffffffff01"}) a.push_back(unhex(x));
    std::sort(a.begin(), a.end());
    vector<vector<string>> r; vector<string> cur;
    std::function<void(size_t)> rec = [&](size_t from) { if (!cur.empty()) r.push_back(cur); if (cur.size() == most) return;
        for (size_t i = from; i < a.size(); i++) { cur.push_back(a[i]); rec(i + 1); cur.pop_back(); } };
    rec(0); return r;
}

// String alphabets with prefix relations, zero and 0xff bytes.
inline vector<vector<string>> string_sets() {
    auto S = [](std::initializer_list<const char *> l) { vector<string> r; for (auto x : l) r.push_back(unhex(x)); return r; };
    return {
        S({"61", "6100", "6101", "61ff"}), S({"6161", "616161", "61616100", "616162"}),
        S({"01", "0101", "0100", "02"}), S({"62", "6200000001", "62000000", "6280"}),
        S({"6162636465666768", "616263646566676800", "61626364656667", "6162636465666769"}),
        S({"616263646566676861", "6162636465666768617a", "61626364656667687a", "6162636465666769"}),
        S({"ff", "ff01", "ffff", "fe"}), S({"7fffff", "80", "800000", "7f"}),
    };
}
} // namespace vf
