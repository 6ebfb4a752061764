// Execution of one history against the real filter, and the oracles that judge it.
#pragma once
#include "vf_rng.hpp"
#include "engine.hpp"
#include <array>
#include <memory>
#include <optional>

namespace vf {
using std::string;
using std::vector;

inline string k64(uint64_t v) { v = __builtin_bswap64(v); return string((char *) &v, 8); }
inline uint64_t u64(const string &s) { uint64_t v = 0; memcpy(&v, s.data(), std::min<size_t>(8, s.size())); return __builtin_bswap64(v); }

struct Op { char kind; string key; uint32_t arg = 0; };
inline string op_text(const Op &o) {
    if (o.kind == 'H') return "H:" + std::to_string(o.arg);
    if (o.kind == 'R') return "R";
    return string(1, o.kind) + ":" + hex(o.key);
}
inline Op op_parse(const string &s) {
    if (s == "R") return {'R', "", 0};
    if (s[0] == 'H') return {'H', "", (uint32_t) atoi(s.c_str() + 2)};
    return {s[0], unhex(s.substr(2)), 0};
}

struct Config {
    string type = "int";        // int | fix8 | fix4 | fix16 | var | sint | sstr  (s* = streaming loader)
    uint32_t infix = 5; float lf = 0.95f;
    vector<string> base;        // keys loaded by the constructor / streaming loader, sorted
    vector<Op> pre;             // applied before exploration starts
    vector<string> probes;      // query end points
    string name;
    string head;                // cached text
    const string &text() {
        if (head.empty()) {
            std::ostringstream o; o << "type " << type << "\ninfix " << infix << "\nlf " << lf << "\nbase";
            for (auto &k : base) o << ' ' << hex(k);
            o << "\nprobes"; for (auto &k : probes) o << ' ' << hex(k);
            o << "\npre"; for (auto &p : pre) o << ' ' << op_text(p);
            head = o.str();
        }
        return head;
    }
};
inline string history_text(Config &c, const vector<Op> &ops) {
    string s = c.text() + "\nops"; for (auto &o : ops) { s += ' '; s += op_text(o); } return s;
}
inline void history_parse(const string &t, Config &c, vector<Op> &ops) {
    std::istringstream in(t); string l;
    while (std::getline(in, l)) {
        std::istringstream ls(l); string w; ls >> w;
        if (w == "type") ls >> c.type; else if (w == "infix") ls >> c.infix; else if (w == "lf") ls >> c.lf;
        else if (w == "base") { string k; while (ls >> k) c.base.push_back(unhex(k)); }
        else if (w == "probes") { string k; while (ls >> k) c.probes.push_back(unhex(k)); }
        else if (w == "pre") { string k; while (ls >> k) c.pre.push_back(op_parse(k)); }
        else if (w == "ops") { string k; while (ls >> k) ops.push_back(op_parse(k)); }
    }
}

struct Filter {
    virtual ~Filter() {}
    virtual void insert(const string &k, bool split) = 0;
    virtual void del(const string &k) = 0;
    virtual bool point(const string &k) const = 0;
    virtual bool range(const string &l, const string &r) const = 0;
    virtual void shrink(uint32_t n) = 0;
    virtual string image() const = 0;       // serialized form
    virtual uint32_t size() const = 0;
    virtual uint32_t serialize(char *out) const = 0;
    virtual std::unique_ptr<Filter> restored() const = 0;   // a copy read back from an exactly sized buffer that is released
    virtual void roundtrip() = 0;           // replace by such a copy
};

// A key in a heap block of exactly its own size, so that an access past the key is an access past the block.
struct Exact {
    char *p; size_t n;
    explicit Exact(const string &k) : p((char *) malloc(k.size())), n(k.size()) { memcpy(p, k.data(), n); }
    ~Exact() { memset(p, 0x55, n); free(p); }       // callers may reuse the buffer
    operator std::string_view() const { return {p, n}; }
};
#ifdef VF_MEMORY
#define VF_KEY(k) Exact(k)
#else
#define VF_KEY(k) std::string_view(k)
#endif

template <bool I> struct FilterT : Filter {
    std::unique_ptr<Diva<I>> d;
    void insert(const string &k, bool s) override {
        vf_split = s;
        if constexpr (I) d->Insert(u64(k)); else { Exact c(k); d->Insert(std::string_view(c)); }
        vf_split = false;
    }
    void del(const string &k) override { if constexpr (I) d->Delete(u64(k)); else d->Delete(VF_KEY(k)); }
    bool point(const string &k) const override { if constexpr (I) return d->PointQuery(u64(k)); else return d->PointQuery(VF_KEY(k)); }
    bool range(const string &l, const string &r) const override {
        if constexpr (I) return d->RangeQuery(u64(l), u64(r)); else return d->RangeQuery(VF_KEY(l), VF_KEY(r)); }
    void shrink(uint32_t n) override { d->ShrinkInfixSize(n); }
    uint32_t size() const override { return d->Size(); }
    string image() const override {
        const uint32_t n = d->Size(); string b(n + 4096, '\xA5');
        const uint32_t m = d->Serialize(&b[0]); b.resize(std::min<size_t>(m, b.size())); return b;
    }
    uint32_t serialize(char *out) const override { return d->Serialize(out); }
    std::unique_ptr<Filter> restored() const override {
        const uint32_t n = d->Size();
        auto g = std::make_unique<FilterT<I>>();
        char *b = (char *) malloc(n);
        d->Serialize(b);
        g->d.reset(new Diva<I>(b));
        memset(b, 0xEE, n);     // the copy must not live in the caller's buffer
        free(b);
        return g;
    }
    void roundtrip() override {
        auto g = restored(); d = std::move(static_cast<FilterT<I> *>(g.get())->d);
    }
};

template <size_t N> inline std::unique_ptr<Diva<false>> make_fixed(const Config &c) {
    vector<std::array<uint8_t, N>> v(c.base.size());
    for (size_t i = 0; i < v.size(); i++) memcpy(v[i].data(), c.base[i].data(), N);
    return std::unique_ptr<Diva<false>>(new Diva<false>(c.infix, v.begin(), v.end(), N, 1, c.lf));
}
inline std::unique_ptr<Filter> make_filter(const Config &c) {
    vf_split = false;
    if (c.type == "int" || c.type == "sint") {
        auto f = std::make_unique<FilterT<true>>();
        if (c.type == "int") {
            vector<uint64_t> v; for (auto &k : c.base) v.push_back(u64(k));
            f->d.reset(new Diva<true>(c.infix, v.begin(), v.end(), 8, 1, c.lf));
        } else {
            f->d.reset(new Diva<true>(c.infix, 1, c.lf));
            for (auto &k : c.base) f->d->BulkLoadStreaming(u64(k));
            f->d->BulkLoadStreamingFinish();
        }
        return f;
    }
    auto f = std::make_unique<FilterT<false>>();
    if (c.type == "fix8") f->d = make_fixed<8>(c);
    else if (c.type == "fix4") f->d = make_fixed<4>(c);
    else if (c.type == "fix16") f->d = make_fixed<16>(c);
    else if (c.type == "var") f->d.reset(new Diva<false>(c.infix, c.base.begin(), c.base.end(), 1, c.lf));
    else {
        f->d.reset(new Diva<false>(c.infix, 1, c.lf));
        for (auto &k : c.base) f->d->BulkLoadStreaming(std::string_view(k));
        f->d->BulkLoadStreamingFinish();
    }
    return f;
}

// Number of leading bits two strings have in common (both continued with zero bits).
inline uint32_t shared_bits(const string &a, const string &b) {
    const size_t n = std::max(a.size(), b.size());
    for (size_t i = 0; i < n; i++) {
        const uint8_t x = (i < a.size() ? a[i] : 0) ^ (i < b.size() ? b[i] : 0);
        if (x) return i * 8 + __builtin_clz((uint32_t) x << 24);
    }
    return n * 8;
}

struct Model {
    std::multiset<string> present;
    std::set<string> sentinels;
    uint32_t min_infix = 64;
    // For the precision oracle: boundary keys that are certainly in place, and the number of leading bits that are
    // certainly retained of every key (present ones, and all that were ever added)
    bool precise = false, gaps = false;
    std::set<string> bounds;
    std::multimap<string, uint32_t> retained; std::map<string, uint32_t> ever;

    void init(const Config &c, bool want_precise = false) {
        for (auto &k : c.base) present.insert(k);
        min_infix = c.infix; precise = want_precise;
        size_t ml = 0, least = ~(size_t) 0; for (auto &k : c.base) { ml = std::max(ml, k.size()); least = std::min(least, k.size()); }
        size_t lo = c.type == "var" ? 8 : ml;
        sentinels = {string(lo, '\0'), string(ml, '\xff')};
        if (!precise) return;
        gaps = least >= 8 || c.type == "fix4";      // short strings as boundary keys retain no more than themselves
        for (size_t i = 0; i < c.base.size(); i += 1024) bounds.insert(c.base[i]);
        if (!c.base.empty()) bounds.insert(c.base.back());
        for (auto &s : sentinels) bounds.insert(s);
        for (auto &k : c.base) add(k, gap_bits(k));
    }
    // Leading bits that the filter retains of a key that falls between the two boundary keys around k
    uint32_t gap_bits(const string &k) const {
        uint32_t sh = 0;
        if (gaps) {
            auto hi = bounds.upper_bound(k);
            if (hi != bounds.begin() && hi != bounds.end()) { auto lo = std::prev(hi); sh = shared_bits(*lo, *hi); }
        }
        return sh + 9 + min_infix;
    }
    void add(const string &k, uint32_t bits) {
        retained.insert({k, bits});
        auto e = ever.find(k); if (e == ever.end()) ever[k] = bits; else e->second = std::min(e->second, bits);
    }
    void cap_all() {
        for (auto &e : retained) e.second = std::min(e.second, gap_bits(e.first));
        for (auto &e : ever) e.second = std::min(e.second, gap_bits(e.first));
    }
    void apply(const Op &o) {
        if (o.kind == 'I' || o.kind == 'S') {
            present.insert(o.key);
            if (precise) {
                const uint32_t g = gap_bits(o.key);
                if (o.kind == 'S' && (o.key.size() < 8 && gaps && o.key.size() != 4)) { gaps = false; cap_all(); }
                bool alone = true;      // does no other entry share the retained bits?
                if (o.kind == 'S') for (auto &e : ever) if (shared_bits(e.first, o.key) >= std::min(e.second, g)) { alone = false; break; }
                add(o.key, g);
                if (o.kind == 'S' && alone) bounds.insert(o.key);
            }
            if (o.key >= *sentinels.rbegin()) { sentinels.insert(o.key); sentinels.insert(o.key + "\xff"); if (precise) { gaps = false; cap_all(); } }    // the end of the key space moves along
        }
        else if (o.kind == 'D') {
            present.erase(present.find(o.key));
            if (precise) {
                auto r = retained.equal_range(o.key); auto best = r.first;
                for (auto i = r.first; i != r.second; ++i) if (i->second > best->second) best = i;
                if (best != r.second) retained.erase(best);
                if (bounds.erase(o.key)) cap_all();
            }
        }
        else if (o.kind == 'H') { min_infix = std::min(min_infix, o.arg); if (precise) cap_all(); }
    }
    bool any_in(const string &l, const string &r) const { auto it = present.lower_bound(l); return it != present.end() && *it <= r; }
    static string floor_bits(string k, uint32_t bits, size_t len) {
        k.resize(std::max(len, k.size()), '\0');
        for (size_t i = 0; i < k.size(); i++) {
            if (i * 8 >= bits) k[i] = 0; else if (bits - i * 8 < 8) k[i] &= (char) (0xff << (8 - (bits - i * 8)));
        }
        while (!k.empty() && k.back() == 0) k.pop_back();
        return k;
    }
    static string ceil_bits(string k, uint32_t bits, size_t len) {
        k.resize(std::max(len, k.size()), '\0');
        for (size_t i = 0; i < k.size(); i++) {
            if (i * 8 >= bits) k[i] = (char) 0xff; else if (bits - i * 8 < 8) k[i] |= (char) (0xff >> (bits - i * 8));
        }
        return k;
    }
    // May the filter answer "maybe" for [l, r]?  Only if a key (or an end-of-domain marker), widened to the block of
    // its retained bits, meets the range, widened to whole blocks of the resolution at its ends.
    template <class M> static bool meets(const M &m, const string &a, const string &b) {
        auto it = m.lower_bound(a); if (it != m.end() && it->first <= b) return true;
        for (auto &e : m) if (floor_bits(e.first, e.second, 32) <= b && a <= ceil_bits(e.first, e.second, 32)) return true;
        return false;
    }
    bool may(const string &l, const string &r, bool past) const {
        const string a = floor_bits(l, gap_bits(l), 32), b = ceil_bits(r, gap_bits(r), 32);
        if (past ? meets(ever, a, b) : meets(retained, a, b)) return true;
        for (auto &s : sentinels) {
            const uint32_t bits = gap_bits(s);
            const string t = floor_bits(s, bits, 32);
            if (a <= s && t <= b) return true;
        }
        return false;
    }
};

inline void apply_op(Filter &f, const Op &o) {
    switch (o.kind) {
        case 'I': f.insert(o.key, false); break;
        case 'S': f.insert(o.key, true); break;
        case 'D': f.del(o.key); break;
        case 'H': f.shrink(o.arg); break;
        case 'R': f.roundtrip(); break;
    }
}


// ---------------------------------------------------------------------------------------------
// Oracles. Every property of the filter judges the same kind of execution (one history against
// the real code), each with its own oracle.
enum Oracle { O_POINT = 1, O_RANGE = 2, O_PRECISE = 4, O_TWIN = 8, O_ROUND = 16, O_PURE = 32, O_FOOTPRINT = 64, O_LOADERS = 128, O_MEMORY = 256, O_NONE = 0 };

inline void judge(const Filter &f, const Model &m, const Config &c, int oracle, bool past = false) {
    uint64_t nq = 0;
    const string *last = nullptr;
    for (auto &k : m.present) {
        if (last && *last == k) continue;
        last = &k;
        if (oracle & O_POINT) { nq++; if (!f.point(k)) throw Fail{"false negative: point query for present key " + hex(k)}; }
        if (oracle & O_RANGE) { nq++; if (!f.range(k, k)) throw Fail{"false negative: range query [k,k] for present key " + hex(k)}; }
    }
    const auto &P = c.probes;
    const bool pr = oracle & O_PRECISE;
    if ((oracle & O_RANGE) || pr) for (size_t a = 0; a < P.size(); a++) {
        if (pr) {
            nq++;
            if (f.point(P[a]) && !m.may(P[a], P[a], past)) throw Fail{"spurious positive: point query " + hex(P[a]) + " though no present key shares its retained bits"};
        }
        for (size_t b = a; b < P.size(); b++) {
            nq++;
            const bool got = f.range(P[a], P[b]);
            if (!got) { if ((oracle & O_RANGE) && m.any_in(P[a], P[b])) throw Fail{"false negative: range query [" + hex(P[a]) + "," + hex(P[b]) + "] contains a present key"}; }
            else if (pr && !m.may(P[a], P[b], past)) throw Fail{"spurious positive: range query [" + hex(P[a]) + "," + hex(P[b]) + "] though no present key shares its retained bits"};
        }
    }
    shm->queries += nq;
}
// all answers of a filter on the probes and the present keys, as a string of bits
inline string answers(const Filter &f, const Model &m, const Config &c, bool reverse = false) {
    string r;
    const auto &P = c.probes; const size_t n = P.size();
    auto put = [&](bool b) { r += b ? '1' : '0'; };
    if (!reverse) {
        for (auto &k : m.present) { put(f.point(k)); put(f.range(k, k)); }
        for (size_t a = 0; a < n; a++) { put(f.point(P[a])); for (size_t b = a; b < n; b++) put(f.range(P[a], P[b])); }
    } else {
        for (size_t a = n; a-- > 0;) { for (size_t b = n; b-- > a;) put(f.range(P[a], P[b])); put(f.point(P[a])); }
        for (auto it = m.present.rbegin(); it != m.present.rend(); ++it) { put(f.range(*it, *it)); put(f.point(*it)); }
        std::reverse(r.begin(), r.end());
    }
    shm->queries += r.size();
    return r;
}
inline string first_diff(const string &a, const string &b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return strf("first difference at %zu of %zu/%zu", i, a.size(), b.size());
}
// Serialises into an exactly sized buffer with guard bytes around it.
inline string checked_image(const Filter &f) {
    const uint32_t n = f.size();
    vector<char> b(n + 4096 + 64, (char) 0xA5), b2(n + 4096 + 64, (char) 0x3C);
    const uint32_t w = f.serialize(b.data() + 32), w2 = f.serialize(b2.data() + 32);
    if (w != n || w2 != n) throw Fail{strf("serialising wrote %u bytes, announced %u", w, n)};
    for (int i = 0; i < 32; i++) if (b[i] != (char) 0xA5) throw Fail{"serialising wrote before the buffer"};
    for (size_t i = 32 + n; i < b.size(); i++) if (b[i] != (char) 0xA5) throw Fail{"serialising wrote past the announced size"};
    if (memcmp(b.data() + 32, b2.data() + 32, n)) throw Fail{"serialising twice gives different bytes (or leaves bytes unwritten)"};
    return string(b.data() + 32, n);
}

struct Run {            // one history being executed
    Config &c; int oracle; Model m; std::unique_ptr<Filter> f, twin; std::unique_ptr<Config> tc;
    bool any_s = false, any_d = false; uint32_t last_size = 0;
    Run(Config &c, int oracle) : c(c), oracle(oracle) {
        f = make_filter(c); m.init(c, oracle & O_PRECISE);
        if (oracle & O_TWIN) {
            tc = std::make_unique<Config>(c);
            if (c.type == "int") tc->type = "fix8"; else if (c.type == "sint") tc->type = "sstr";
            twin = make_filter(*tc);
        } else if (oracle & O_LOADERS) {
            tc = std::make_unique<Config>(c);
            const string &t = c.type;
            tc->type = t == "int" ? "sint" : t == "sint" ? "int" : t == "sstr" ? "var" : "sstr";
            twin = make_filter(*tc);
        } else if (oracle & (O_ROUND | O_PURE)) twin = make_filter(c);
        for (auto &o : c.pre) apply(o, false);
    }
    void apply(const Op &o, bool between = true) {
        if (o.kind == 'S') any_s = true;
        if (o.kind == 'D') any_d = true;
        const uint32_t before = (oracle & O_FOOTPRINT) && o.kind == 'H' ? f->size() : 0;
        apply_op(*f, o); m.apply(o);
        if ((oracle & O_FOOTPRINT) && o.kind == 'H' && f->size() > before) throw Fail{strf("reducing the infix size grew the filter from %u to %u bytes", before, f->size())};
        if (twin && o.kind != 'R') apply_op(*twin, o);
        if ((oracle & O_PURE) && between) { answers(*f, m, c); f->image(); }
    }
    void check() {
        judge(*f, m, c, oracle, any_s && any_d);     // deleted keys may linger once boundary keys were inserted: then every key ever added counts
        if (oracle & O_TWIN) {
            const string a = answers(*f, m, c), b = answers(*twin, m, c);
            if (a != b) throw Fail{"integer and byte-string filter answer differently: " + first_diff(a, b)};
        }
        if (oracle & O_LOADERS) {       // the loaders mark the start of the key space differently: queries that start there are not compared
            Config d; for (auto &p : c.probes) if (p.find_first_not_of('\0') != string::npos) d.probes.push_back(p);
            const string a = answers(*f, m, d), b = answers(*twin, m, d);
            if (a != b) throw Fail{"the filters built by the loaders " + c.type + " and " + tc->type + " answer differently: " + first_diff(a, b)};
        }
        if (oracle & O_MEMORY) { answers(*f, m, c); f->restored(); }
        if (oracle & O_ROUND) {
            const string img = checked_image(*f), timg = checked_image(*twin);
            if (img != timg) throw Fail{"a restored filter evolved differently from the original: images " + first_diff(img, timg)};
            const string a = answers(*f, m, c);
            if (a != answers(*twin, m, c)) throw Fail{"a restored filter answers differently from the original"};
            auto g = f->restored();
            if (checked_image(*g) != img) throw Fail{"serialising a restored filter gives different bytes"};
            if (answers(*g, m, c) != a) throw Fail{"a restored filter answers differently"};
        }
        if (oracle & O_PURE) {
            const string i0 = f->image(), a = answers(*f, m, c), i1 = f->image(), b = answers(*f, m, c, true), i2 = f->image();
            if (a != b) throw Fail{"the same queries in another order give other answers: " + first_diff(a, b)};
            if (i0 != i1 || i1 != i2) throw Fail{"queries changed the filter: image " + first_diff(i0, i0 == i1 ? i2 : i1)};
            if (twin->image() != i0) throw Fail{"the filter that was queried between the updates differs from the one that was not"};
            if (answers(*twin, m, c) != a) throw Fail{"the filter that was queried between the updates answers differently"};
        }
    }
};

struct Scenario {
    string name; Config cfg; vector<Op> alphabet; int depth = 3;
    uint32_t max_h = 1, max_r = 1, max_s = 99, max_copies = 2;   // bounds within a history
    bool ramp = false; vector<Op> ops; uint32_t every = 1; bool every_h = false;        // one long history, judged every n steps
};

// Bytes the library and the harness hold: heap blocks and mapped pages.
#ifdef VF_MEMORY
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" long vf_mapped;
inline size_t held() { return __sanitizer_get_current_allocated_bytes() + (size_t) vf_mapped; }
#else
inline size_t held() { return 0; }
#endif
template <class F> inline void accounted(const F &fn) {
    const size_t before = held();
    fn();
    const size_t after = held();
    if (after != before) throw Fail{strf("%ld bytes are not released after the filter is destroyed", (long) (after - before))};
}

// Depth-first enumeration of all operation sequences over the alphabet.
struct Explorer {
    Scenario s; int oracle; int first = -1;     // first: only the sub-tree of this first operation
    std::set<uint64_t> seen; vector<Op> path;

    bool enabled(const Op &o, const Model &m) const {
        uint32_t h = 0, r = 0, sp = 0, same = 0;
        for (auto &q : path) { h += q.kind == 'H'; r += q.kind == 'R'; sp += q.kind == 'S'; same += q.kind == 'S' && q.key == o.key; }
        if (o.kind == 'D') return m.present.count(o.key) > 0;
        if (o.kind == 'H') return h < s.max_h && o.arg < m.min_infix;
        if (o.kind == 'R') return r < s.max_r && (path.empty() || path.back().kind != 'R');
        if (m.present.count(o.key) >= s.max_copies) return false;
        if (o.kind == 'S') return sp < s.max_s && !same;
        return true;
    }
    void exec(Model &m) {
        announce(history_text(s.cfg, path));
        shm->execs++;
        uint64_t h = 0;
        accounted([&] {
            Run r(s.cfg, oracle);
            for (auto &o : path) r.apply(o);
            r.check();
            string img = r.f->image();
            h = hash_bytes(img.data(), img.size());
            for (auto &k : r.m.present) h = hash_bytes(k.data(), k.size(), h * 31 + 7);
        });
        shm->traces++;
        if (seen.insert(h).second) shm->states++;
        m = Model(); m.init(s.cfg);
        for (auto &o : s.cfg.pre) m.apply(o);
        for (auto &o : path) m.apply(o);
    }
    void dfs(int remaining) {
        Model m; exec(m);
        if (!path.empty()) shm->transitions++;
        if (remaining <= 0) return;
        for (auto &o : s.alphabet) {
            if (!enabled(o, m)) continue;
            path.push_back(o); dfs(remaining - 1); path.pop_back();
        }
    }
    void run() {
        if (s.ramp) { run_ramp(); return; }
        if (first < 0) { dfs(s.depth); return; }
        Model m; m.init(s.cfg); for (auto &o : s.cfg.pre) m.apply(o);
        const Op &o = s.alphabet[first];
        if (first == 0) { Model x; exec(x); }
        if (s.depth <= 0 || !enabled(o, m)) return;
        path.push_back(o); dfs(s.depth - 1); path.pop_back();
    }
    void run_ramp() {
        announce(history_text(s.cfg, s.ops)); shm->execs++;
        accounted([&] {
            Run r(s.cfg, oracle); r.check(); shm->states++;
            uint32_t n = 0;
            for (auto &o : s.ops) {
                r.apply(o, (oracle & O_PURE) && n % s.every == 0); shm->transitions++; n++;
                shm->w[wid].seq++;
                if (n % s.every == 0 || n == s.ops.size() || (s.every_h && o.kind == 'H')) { r.check(); shm->states++; }
            }
        });
        shm->traces++;
    }
};

inline void replay_history(const string &t, int oracle) {
    Config c; vector<Op> ops; history_parse(t, c, ops); c.text();
    accounted([&] {
        Run r(c, oracle);
        const size_t step = 1 + ops.size() / 400;
        r.check();
        size_t n = 0;
        for (auto &o : ops) { r.apply(o); if (++n % step == 0 || n == ops.size() || o.kind == 'H') r.check(); }
    });
}
} // namespace vf
