// C11 / C12: exhaustive enumeration of bounded histories of the two ordered indexes, compared with std::map.
#include "engine.hpp"
#include <algorithm>
#include <string>
extern "C" {
#include "wh.h"
#include "wh_int.h"
}
using namespace vf;
using std::string; using std::vector; using std::map;
// C15: every execution under address and undefined-behaviour instrumentation, on an index of its own whose memory is accounted for
#ifdef VF_MEMORY
static constexpr bool MEM = true;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" long vf_mapped;
static size_t held() { return __sanitizer_get_current_allocated_bytes() + (size_t) vf_mapped; }
#else
static constexpr bool MEM = false;
static size_t held() { return 0; }
#endif

// ---- the two implementations behind one face --------------------------------------------------
// keys are handed over in blocks of exactly their size when memory is what is checked
struct Buf { const char *p; bool own; Buf(const string &k) : p(k.data()), own(MEM) { if (own) { char *b = (char *) malloc(k.size()); memcpy(b, k.data(), k.size()); p = b; } } ~Buf() { if (own) free((void *) p); } Buf(const Buf &) = delete; operator const void *() const { return p; } };
static constexpr u32 IVAL = 16;      // the integer index stores values of this size
// in-place update: reverses the value; merge: replaces or inserts a value, or leaves all as it is
static void reverse_cb(struct kv *c, void *) { if (c) { u8 *b = c->kv + c->klen; std::reverse(b, b + c->vlen); } }
struct Mg { const string *k, *v; struct kv *made = nullptr; };
static struct kv *merge_cb(struct kv *c, void *p) { Mg *g = (Mg *) p; if (!g->v) return c; return g->made = kv_create(g->k->data(), g->k->size(), g->v->data(), g->v->size()); }
struct WH {
    static constexpr bool rev = true, rmw = true;
    bool upd(const string &k) { return wh_inpw(r, Buf(k), k.size(), reverse_cb, nullptr); }
    bool merge(const string &k, const string *v) { Mg g{&k, v}; return wh_merge(r, Buf(k), k.size(), merge_cb, &g); }
    wormhole *m = nullptr; wormref *r = nullptr; wormhole_iter *it = nullptr;
    void create() { m = wh_create(); r = wh_ref(m); }
    void destroy() { park(); wh_unref(r); wh_destroy(m); }
    void clear() { park(); wh_unref(r); wh_clean(m); r = wh_ref(m); }
    bool put(const string &k, const string &v) { return wh_put(r, Buf(k), k.size(), v.data(), v.size()); }
    bool del(const string &k) { return wh_del(r, Buf(k), k.size()); }
    u64 delr(const string &a, const string &b) { return wh_delr(r, Buf(a), a.size(), Buf(b), b.size()); }
    bool probe(const string &k) { return wh_probe(r, Buf(k), k.size()); }
    bool get(const string &k, string &v) { char b[512]; u32 n = 0; if (!wh_get(r, Buf(k), k.size(), b, sizeof b, &n)) return false; v.assign(b, std::min<u32>(n, sizeof b)); return true; }
    void seek(const string &k) { if (!it) it = wh_iter_create(r); wh_iter_seek(it, Buf(k), k.size()); }
    bool valid() { return it && wh_iter_valid(it); }
    void next() { wh_iter_skip1(it); }
    void prev() { wh_iter_skip1_rev(it); }
    void skip(u32 n) { wh_iter_skip(it, n); }
    bool peek(string &k, string &v) { static char kb[1 << 16]; char vb[512]; u32 kn = 0, vn = 0;
        if (!wh_iter_peek(it, kb, sizeof kb, &kn, vb, sizeof vb, &vn)) return false;
        k.assign(kb, std::min<u32>(kn, sizeof kb)); v.assign(vb, std::min<u32>(vn, sizeof vb)); return true; }
    bool peek_ref(string &k, string &v) { const void *kp; void *vp; u32 kn, vn; wh_iter_peek_ref(it, &kp, &kn, &vp, &vn);
        if (!kp) return false; k.assign((const char *) kp, kn); v.assign((const char *) vp, vn); return true; }
    void park() { if (it) { wh_iter_destroy(it); it = nullptr; } }
    static string value(unsigned n) { return string(1 + n % 7, char('A' + n % 26)) + std::to_string(n); }
};
// the interface in terms of kv blocks, with explicit references
struct Kr { Buf b; kref r; Kr(const string &k) : b(k) { kref_ref_hash32(&r, (const u8 *) b.p, k.size()); } operator const kref *() const { return &r; } };
static bool take(kv *o, string &v, string *k = nullptr) { if (!o) return false; if (k) k->assign((const char *) o->kv, o->klen); v.assign((const char *) o->kv + o->klen, o->vlen); free(o); return true; }
struct WK {
    static constexpr bool rev = true, rmw = true;
    wormhole *m = nullptr; wormref *r = nullptr; wormhole_iter *it = nullptr;
    void create() { m = wormhole_create(nullptr); r = wormhole_ref(m); }
    void destroy() { park(); wormhole_unref(r); wormhole_destroy(m); }
    void clear() { park(); wormhole_unref(r); wormhole_clean(m); r = wormhole_ref(m); }
    bool put(const string &k, const string &v) { kv *b = kv_create(Buf(k), k.size(), v.data(), v.size()); const bool o = wormhole_put(r, b); free(b); return o; }
    bool del(const string &k) { return wormhole_del(r, Kr(k)); }
    u64 delr(const string &a, const string &b) { return wormhole_delr(r, Kr(a), Kr(b)); }
    bool probe(const string &k) { return wormhole_probe(r, Kr(k)); }
    bool get(const string &k, string &v) {
        string w, q; const bool a = take(wormhole_get(r, Kr(k), nullptr), v, &q); wormhole_park(r); const bool b = take(whsafe_get(r, Kr(k), nullptr), w); wormhole_resume(r);
        if (a != b || (a && (v != w || q != k))) throw Fail{"wormhole_get and whsafe_get differ on '" + hex(k) + "'"}; return a; }
    bool upd(const string &k) { return wormhole_inpw(r, Kr(k), reverse_cb, nullptr); }
    bool merge(const string &k, const string *v) { Mg g{&k, v}; const bool o = wormhole_merge(r, Kr(k), merge_cb, &g); free(g.made); return o; }
    void seek(const string &k) { if (!it) it = wormhole_iter_create(r); wormhole_iter_seek(it, Kr(k)); }
    bool valid() { return it && wormhole_iter_valid(it); }
    void next() { free(wormhole_iter_next(it, nullptr)); }
    void prev() { free(wormhole_iter_prev(it, nullptr)); }
    void skip(u32 n) { wormhole_iter_skip(it, n); }
    bool peek(string &k, string &v) { return take(wormhole_iter_peek(it, nullptr), v, &k); }
    bool peek_ref(string &k, string &v) {
        kref a; kvref b; const bool x = wormhole_iter_kref(it, &a), y = wormhole_iter_kvref(it, &b); if (!x || !y) return false;
        k.assign((const char *) a.ptr, a.len); if (b.hdr.klen != a.len || memcmp(b.kptr, a.ptr, a.len)) return false; v.assign((const char *) b.vptr, b.hdr.vlen); return true; }
    void park() { if (it) { wormhole_iter_destroy(it); it = nullptr; } }
    static string value(unsigned n) { return WH::value(n); }
};
// the interface without synchronisation
struct WU {
    static constexpr bool rev = false, rmw = true;
    wormhole *m = nullptr; wormhole_iter *it = nullptr;
    void create() { m = whunsafe_create(nullptr); }
    void destroy() { park(); wormhole_destroy(m); }
    void clear() { park(); wormhole_clean(m); }
    bool put(const string &k, const string &v) { kv *b = kv_create(Buf(k), k.size(), v.data(), v.size()); const bool o = whunsafe_put(m, b); free(b); return o; }
    bool del(const string &k) { return whunsafe_del(m, Kr(k)); }
    u64 delr(const string &a, const string &b) { return whunsafe_delr(m, Kr(a), Kr(b)); }
    bool probe(const string &k) { return whunsafe_probe(m, Kr(k)); }
    bool get(const string &k, string &v) { return take(whunsafe_get(m, Kr(k), nullptr), v); }
    bool upd(const string &k) { return whunsafe_inp(m, Kr(k), reverse_cb, nullptr); }
    bool merge(const string &k, const string *v) { Mg g{&k, v}; const bool o = whunsafe_merge(m, Kr(k), merge_cb, &g); free(g.made); return o; }
    void seek(const string &k) { if (!it) it = whunsafe_iter_create(m); whunsafe_iter_seek(it, Kr(k)); }
    bool valid() { return it && wormhole_iter_valid(it); }
    void next() { free(whunsafe_iter_next(it, nullptr)); }
    void prev() {}
    void skip(u32 n) { whunsafe_iter_skip(it, n); }
    bool peek(string &k, string &v) { return take(wormhole_iter_peek(it, nullptr), v, &k); }
    bool peek_ref(string &k, string &v) { kvref b; if (!wormhole_iter_kvref(it, &b)) return false; k.assign((const char *) b.kptr, b.hdr.klen); v.assign((const char *) b.vptr, b.hdr.vlen); return true; }
    void park() { if (it) { whunsafe_iter_destroy(it); it = nullptr; } }
    static string value(unsigned n) { return WH::value(n); }
};
struct WI {
    static constexpr bool rev = true, rmw = false;
    bool upd(const string &) { return false; }
    bool merge(const string &, const string *) { return false; }
    wormhole_int *m = nullptr; wormref_int *r = nullptr; wormhole_int_iter *it = nullptr;
    // the index loads eight bytes whatever the length: keys are handed over in buffers with changing garbage behind them
    struct KB { unsigned char b[16]; KB(const string &k) { static unsigned g = 0; memset(b, 0x11 + 0x3b * (g++ % 7), sizeof b); memcpy(b, k.data(), k.size()); } };
    void create() { m = wh_int_create(); r = wh_int_ref(m); }
    void destroy() { park(); wh_int_unref(r); wh_int_destroy(m); }
    void clear() { park(); wh_int_unref(r); wh_int_clean(m); r = wh_int_ref(m); }
    bool put(const string &k, const string &v) { KB q(k); return wh_int_put(r, q.b, k.size(), v.data(), v.size()); }
    bool del(const string &k) { KB q(k); return wh_int_del(r, q.b, k.size()); }
    u64 delr(const string &a, const string &b) { KB p(a), q(b); return wh_int_delr(r, p.b, a.size(), q.b, b.size()); }
    bool probe(const string &k) { KB q(k); return wh_int_probe(r, q.b, k.size()); }
    bool get(const string &k, string &v) { KB q(k); char b[64]; u32 n = 0; if (!wh_int_get(r, q.b, k.size(), b, sizeof b, &n)) return false; v.assign(b, std::min<u32>(n, sizeof b)); return true; }
    void seek(const string &k) { KB q(k); if (!it) it = wh_int_iter_create(r); wh_int_iter_seek(it, q.b, k.size()); }
    bool valid() { return it && wh_int_iter_valid(it); }
    void next() { wh_int_iter_skip1(it); }
    void prev() { wh_int_iter_skip1_rev(it); }
    void skip(u32 n) { wh_int_iter_skip(it, n); }
    bool peek(string &k, string &v) { char kb[64], vb[64]; u32 kn = 0, vn = 0;
        if (!wh_int_iter_peek(it, kb, sizeof kb, &kn, vb, sizeof vb, &vn)) return false;
        k.assign(kb, std::min<u32>(kn, sizeof kb)); v.assign(vb, std::min<u32>(vn, sizeof vb)); return true; }
    bool peek_ref(string &k, string &v) { const void *kp; void *vp; u32 kn, vn; wh_int_iter_peek_ref(it, &kp, &kn, &vp, &vn);
        if (!kp) return false; k.assign((const char *) kp, kn); v.assign((const char *) vp, vn); return true; }
    void park() { if (it) { wh_int_iter_destroy(it); it = nullptr; } }
    static string value(unsigned n) { char b[IVAL + 1]; snprintf(b, sizeof b, "%016x", n * 2654435761u + n); return string(b, IVAL); }
};

// ---- histories --------------------------------------------------------------------------------
// P key       put (a fresh value)             D key   delete            R a b  delete range [a,b)
// G key       get + probe                     S key   seek              N n    step n (negative: backwards)
// K n         skip n                          C       clean the map     E      park the iterator (before writes)
// U key       reverse the value in place      M key   merge: replace or insert a value     m key   merge that changes nothing
// Y n         everything since the start n times more; the memory held must not keep growing
// B o i j s   put keys i..j-1 of the universe, order o (0 ascending, 1 descending, 2 inside out), step s;   X o i j s  delete likewise
struct Op { char c; string a, b; int i = 0, j = 0, o = 0, s = 1; };
typedef map<string, string> Model;

struct Univ { string name; vector<string> k; };

struct Case { string impl; string univ; vector<Op> pre, ops; };

static string op_text(const Op &o) {
    switch (o.c) {
        case 'P': case 'D': case 'G': case 'S': case 'U': case 'M': case 'm': return strf("%c ", o.c) + "'" + hex(o.a) + "'";
        case 'R': return "R '" + hex(o.a) + "' '" + hex(o.b) + "'";
        case 'N': case 'K': case 'Y': return strf("%c %d", o.c, o.i);
        case 'B': case 'X': return strf("%c %d %d %d %d", o.c, o.o, o.i, o.j, o.s);
        default: return string(1, o.c);
    }
}
static string case_text(const string &impl, const string &univ, const vector<Op> &pre, const vector<Op> &ops) {
    string t = impl + "\nuniverse " + univ + "\n";
    for (auto &o : pre) t += op_text(o) + "\n";
    for (auto &o : ops) t += op_text(o) + "\n";
    return t;
}
static Op parse_op(const string &l) {
    Op o; o.c = l[0];
    auto q = [&](size_t from, size_t &end) { size_t a = l.find('\'', from), b = l.find('\'', a + 1); end = b + 1; return unhex(l.substr(a + 1, b - a - 1)); };
    size_t e = 1;
    switch (o.c) {
        case 'P': case 'D': case 'G': case 'S': case 'U': case 'M': case 'm': o.a = q(1, e); break;
        case 'R': o.a = q(1, e); o.b = q(e, e); break;
        case 'N': case 'K': case 'Y': o.i = atoi(l.c_str() + 1); break;
        case 'B': case 'X': sscanf(l.c_str() + 1, "%d %d %d %d", &o.o, &o.i, &o.j, &o.s); break;
    }
    return o;
}

// ---- key universes ----------------------------------------------------------------------------
static vector<Univ> universes(bool integer) {
    vector<Univ> u;
    auto add = [&](const string &n, vector<string> k) { std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end()); u.push_back({n, k}); };
    auto be = [](uint64_t v, int n) { string s; for (int i = n - 1; i >= 0; i--) s += char(v >> (8 * i)); return s; };
    vector<string> k;
    for (int i = 0; i < 96; i++) k.push_back(be(0x1122334455660000ull + i * 3, 8)); add("dense", k); k.clear();
    for (int i = 0; i < 96; i++) k.push_back(string(1, char(i * 2 + 30)) + "abcdefg"); add("first-byte", k); k.clear();
    for (int i = 0; i < 96; i++) k.push_back(be((uint64_t) i * 0x0155555555555555ull * 2 + 7, 8)); add("spread", k); k.clear();
    // (the integer index chooses where to split by the mirrored byte: keys like these split in the middle)
    for (int i = 0; i < 96; i++) k.push_back(be(0x1100000000000011ull + (0x0001000000000100ull * (i * 2 + 1)), 8)); add("mirror", k); k.clear();
    // words over an alphabet, all lengths: every key is a prefix of others
    auto words = [&](string al, int maxlen) { vector<string> w{""}, all{""}; for (int l = 0; l < maxlen; l++) { vector<string> n; for (auto &s : w) for (char c : al) n.push_back(s + c); all.insert(all.end(), n.begin(), n.end()); w = n; } return all; };
    add("words-00-01", words(string("\0\1", 2), 6));
    add("words-00-61-ff", words(string("\0a\xff", 3), 4));
    add("words-4", words("?@\x80z", 3));
    for (int i = 0; i < 48; i++) { string p = "k" + be(i * 5, 1); k.push_back(p); k.push_back(p + string(1, 0)); k.push_back(p + "zz"); } add("prefix-pairs", k); k.clear();
    for (int i = 0; i < 96; i++) { uint64_t v = 0; for (int b = 0; b < 7; b++) if (i >> b & 1) v |= 0xffull << (8 * b + 4); k.push_back(be(v, 8)); } add("sparse-bits", k); k.clear();
    if (!integer) {
        for (int i = 0; i < 96; i++) k.push_back(string(70, 'p') + be(i * 3, 2)); add("long-prefix", k); k.clear();
        for (int i = 0; i < 96; i++) k.push_back(string(i * 5 + 1, 'q')); add("chain", k); k.clear();
        for (int i = 0; i < 96; i++) k.push_back(string(i % 12 * 3, 'x') + string(1, char('a' + i / 12)) + string(i / 12, 0)); add("comb", k); k.clear();
        for (int i = 0; i < 96; i++) k.push_back(string(8000 + i % 3, 'L') + be(i, 2)); add("kilobytes", k); k.clear();
        for (int i = 0; i < 70; i++) k.push_back(string(65533, 'M') + be(i * 3, 2)); add("longest-anchor", k); k.clear();       // anchors of up to 65535 bytes, the most a node of the table can name
    }
    return u;
}
static const Univ &universe(const string &name, bool integer) {
    static vector<Univ> a = universes(false), b = universes(true);
    for (auto &u : integer ? b : a) if (u.name == name) return u;
    if (name.compare(0, 5, "large") == 0) {
        static map<string, Univ> big; auto &u = big[name];
        if (u.k.empty()) {
            const int kind = name[5] - '0', n = kind & 4 ? 200000 : 40000; u.name = name;
            for (int i = 0; i < n; i++) {
                uint64_t x = (uint64_t) i * (kind & 2 ? 0x9E3779B97F4A7C15ull : 0x1000001ull); string k;
                for (int b = 7; b >= 0; b--) k += char(x >> (8 * b));
                u.k.push_back(kind & 1 ? k.substr(0, 5 + i % 4) : k);
            }
            std::sort(u.k.begin(), u.k.end()); u.k.erase(std::unique(u.k.begin(), u.k.end()), u.k.end());
        }
        return u;
    }
    static Univ none{"none", {}}; return none;
}
static vector<int> order(int o, int i, int j, int s) {
    vector<int> r; for (int x = i; x < j; x += s) r.push_back(x);
    if (o == 1) std::reverse(r.begin(), r.end());
    if (o == 2) { vector<int> q; for (size_t n = 0, m = r.size() / 2; n < r.size(); n++) { size_t p = n % 2 ? m - (n + 1) / 2 : m + n / 2; q.push_back(r[p < r.size() ? p : 0]); } std::sort(r.begin(), r.end()); vector<int> seen; vector<int> out; for (int x : q) if (std::find(out.begin(), out.end(), x) == out.end()) out.push_back(x); for (int x : r) if (std::find(out.begin(), out.end(), x) == out.end()) out.push_back(x); return out; }
    return r;
}

// ---- execution --------------------------------------------------------------------------------
template <class I> struct Exec {
    I x; Model m; unsigned vno = 0; const Univ *u = nullptr; bool fresh = true; uint64_t q = 0;
    Model::iterator mi; bool mvalid = false, itlive = false;
    void start(const Univ *un) { u = un; x.create(); mi = m.end(); }
    void restart() { if (MEM) { open(); return; } x.clear(); m.clear(); vno = 0; itlive = mvalid = false; }
    size_t before = 0; bool opened = true;
    void open() { if (opened) close(false); vector<Op>().swap(past); before = held(); x.create(); opened = true; vno = 0; itlive = mvalid = false; }
    void close(bool judge = true) {
        if (!opened) return; park(); x.destroy(); opened = false; m.clear(); vector<Op>().swap(past);
        if (MEM && judge && before && held() != before) bad(strf("%ld bytes are not released after the index is destroyed", (long) (held() - before)));
    }
    [[noreturn]] void bad(const string &w) { throw Fail{w}; }
    void park() { if (itlive) { x.park(); itlive = false; mvalid = false; } }
    void put(const string &k) { park(); const string v = I::value(vno++); if (!x.put(k, v)) bad("put of '" + hex(k) + "' is refused"); m[k] = v; }
    void del(const string &k) { park(); const bool r = x.del(k), e = m.erase(k); if (r != e) bad("delete of '" + hex(k) + strf("' answers %d, the key %s present", r, e ? "was" : "was not")); }
    void upd(const string &k) { park(); auto f = m.find(k); const bool r = x.upd(k), e = f != m.end(); if (r != e) bad("in-place update of '" + hex(k) + strf("' answers %d, the key %s present", r, e ? "is" : "is not")); if (e) std::reverse(f->second.begin(), f->second.end()); }
    void merge(const string &k, bool change) { park(); string v; if (change) v = I::value(vno++); if (!x.merge(k, change ? &v : nullptr)) bad("merge of '" + hex(k) + "' is refused"); if (change) m[k] = v; }
    void get(const string &k) {
        park(); q += 2;
        auto f = m.find(k); const bool e = f != m.end();
        if (x.probe(k) != e) bad("probe of '" + hex(k) + strf("' answers %d, a sorted map %d", !e, e));
        string v; const bool g = x.get(k, v);
        if (g != e) bad("get of '" + hex(k) + strf("' answers %d, a sorted map %d", g, e));
        if (e && v != f->second) bad("get of '" + hex(k) + "' returns '" + hex(v) + "', the last value stored is '" + hex(f->second) + "'");
    }
    void at(const char *what) {      // compare iterator position with the model's
        q++;
        const bool va = x.valid();
        if (va != mvalid) bad(strf("after %s the iterator is %s, a sorted map's is %s", what, va ? "on a key" : "at the end", mvalid ? "on '" : "at the end") + (mvalid ? hex(mi->first) + "'" : ""));
        string k, v;
        if (!va) { if (x.peek(k, v)) bad("peek at the end returns a key"); if (x.peek_ref(k, v)) bad("peek_ref at the end returns a key"); return; }
        if (!x.peek(k, v)) bad(strf("peek fails after %s", what));
        if (k != mi->first) bad(strf("after %s the iterator is on '", what) + hex(k) + "', a sorted map's on '" + hex(mi->first) + "'");
        if (v != mi->second) bad(strf("after %s the value of '", what) + hex(k) + "' is '" + hex(v) + "', the last value stored is '" + hex(mi->second) + "'");
        string k2, v2; if (!x.peek_ref(k2, v2) || k2 != k || v2 != v) bad("peek_ref of '" + hex(k) + "' differs from peek");
    }
    void seek(const string &k, bool check = true) { x.seek(k); itlive = true; mi = m.lower_bound(k); mvalid = mi != m.end(); if (check) at("seek"); }
    void step(int n) {
        if (!itlive) return;
        for (; n > 0; n--) { x.next(); if (mvalid) { ++mi; mvalid = mi != m.end(); } at("a step forward"); }
        if (I::rev) for (; n < 0; n++) { x.prev(); if (mvalid) { if (mi == m.begin()) mvalid = false; else --mi; } at("a step back"); }
    }
    void skip(int n) { if (!itlive) return; x.skip(n); for (int i = 0; i < n && mvalid; i++) { ++mi; mvalid = mi != m.end(); } at("a skip"); }
    void delr(const string &a, const string &b) {
        park(); const u64 r = x.delr(a, b); u64 e = 0;
        if (a < b) { auto f = m.lower_bound(a), l = m.lower_bound(b); e = std::distance(f, l); m.erase(f, l); }
        if (r != e) bad("deleting the range '" + hex(a) + "' .. '" + hex(b) + strf("' reports %lu keys, it held %lu", (unsigned long) r, (unsigned long) e));
    }
    vector<Op> past;
    void again(int n) {
        const vector<Op> ops = past; size_t ref = 0;
        for (int i = 0; i < n; i++) {
            vno = 0; for (auto &o : ops) apply(o); park();
            if (i == n / 10) ref = held();
        }
        if (held() > ref) bad(strf("the index holds %ld bytes more after the same operations are repeated %d times than after %d times", (long) (held() - ref), n, n / 10 + 1));
    }
    bool recording = true;
    void apply(const Op &o) {
        if (o.c == 'Y') { recording = false; again(o.i); recording = true; return; }
        if (MEM && recording) past.push_back(o);
        switch (o.c) {
            case 'P': put(o.a); break;
            case 'D': del(o.a); break;
            case 'R': delr(o.a, o.b); break;
            case 'G': get(o.a); break;
            case 'U': upd(o.a); break;
            case 'M': merge(o.a, true); break;
            case 'm': merge(o.a, false); break;
            case 'S': seek(o.a); break;
            case 'N': step(o.i); break;
            case 'K': skip(o.i); break;
            case 'E': park(); break;
            case 'C': park(); x.clear(); m.clear(); break;
            case 'B': for (int i : order(o.o, o.i, std::min<int>(o.j, u->k.size()), o.s)) put(u->k[i]); break;
            case 'X': for (int i : order(o.o, o.i, std::min<int>(o.j, u->k.size()), o.s)) del(u->k[i]); break;
        }
    }
    // the final check: point lookups first (they must not depend on the sorting that iterators do), then positions, then full walks
    void check(const vector<string> &probes, bool deep) {
        for (auto &k : probes) get(k);
        if (deep) for (auto &k : probes) { seek(k); step(1); seek(k); step(-1); }
        else for (auto &k : probes) seek(k);
        seek(""); while (mvalid) step(1);
        if (I::rev && !m.empty()) { seek(m.rbegin()->first); while (mvalid) step(-1); }
        park();
    }
};

struct Scen {
    string name, univ; vector<Op> pre; vector<vector<Op>> alphabet; int depth = 1; vector<string> probes; bool deep = false; bool iteronly = false;
    vector<vector<Op>> ramp; int every = 1;   // ramp: one long history, checked after every `every` operations
};

template <class I> struct Explore {
    const Scen &s; const string impl; Exec<I> e; vector<int> path; vector<Op> ops;
    std::vector<string> probes;
    Explore(const Scen &sc, const string &im) : s(sc), impl(im) { e.start(&universe(s.univ, impl == "wh_int")); }
    void execute(bool atend) {
        announce(case_text(impl, s.univ, s.pre, ops));
        e.restart();
        for (auto &o : s.pre) e.apply(o);
        for (auto &o : ops) e.apply(o);
        if (atend) e.check(s.probes, s.deep); else e.park();
        const size_t left = e.m.size(); if (MEM) e.close();
        shm->execs++; shm->traces++; shm->states++; shm->transitions += ops.size(); shm->queries += e.q; shm->outcomes[std::min<size_t>(left / 4, 31)]++; e.q = 0;
    }
    void rec(int d) {
        execute(!s.iteronly);
        if (d == s.depth) return;
        for (auto &a : s.alphabet) { size_t n = ops.size(); ops.insert(ops.end(), a.begin(), a.end()); rec(d + 1); ops.resize(n); }
    }
    void run(int first) {
        if (!s.ramp.empty()) {
            // every prefix of the long history that ends at a checkpoint, on a map of its own history
            vector<Op>().swap(ops); e.restart(); size_t n = 0;
            for (auto &o : s.pre) e.apply(o);
            for (auto &a : s.ramp) {
                for (auto &o : a) { ops.push_back(o); }
                announce(case_text(impl, s.univ, s.pre, ops));
                for (auto &o : a) e.apply(o);
                shm->transitions += a.size();
                if (++n % s.every == 0) { e.check(s.probes, s.deep); shm->execs++; shm->states++; shm->traces++; shm->queries += e.q; e.q = 0; }
            }
            if (MEM) { vector<Op>().swap(ops); e.close(); }
            finish();
            return;
        }
        auto &a = s.alphabet[first]; ops = a; rec(1);
        finish();
    }
    void finish() { if (!MEM) { e.park(); e.x.destroy(); } }      // (a worker executes thousands of jobs)
};

template <class I> static void replay(const string &t) {
    std::istringstream is(t); string l; std::getline(is, l); std::getline(is, l);
    const string un = l.substr(l.find(' ') + 1); const bool integer = std::is_same<I, WI>::value;
    Exec<I> e; e.start(&universe(un, integer)); vector<string> probes = e.u->k; vector<Op> ops;
    while (std::getline(is, l)) if (!l.empty() && l[0] != '#') { ops.push_back(parse_op(l)); for (auto &k : {ops.back().a, ops.back().b}) if (!integer || k.size() <= 8) probes.push_back(k); }
    const bool it = !ops.empty() && (ops.back().c == 'N' || ops.back().c == 'K' || ops.back().c == 'S');
    if (MEM) e.open();
    for (auto &o : ops) e.apply(o);
    if (!it) e.check(probes, true); else e.park();
    if (MEM) e.close(); else e.x.destroy();
}

// ---- plan -------------------------------------------------------------------------------------
static Op P(const string &k) { Op o; o.c = 'P'; o.a = k; return o; }
static Op D(const string &k) { Op o; o.c = 'D'; o.a = k; return o; }
static Op G(const string &k) { Op o; o.c = 'G'; o.a = k; return o; }
static Op S(const string &k) { Op o; o.c = 'S'; o.a = k; return o; }
static Op R(const string &a, const string &b) { Op o; o.c = 'R'; o.a = a; o.b = b; return o; }
static Op Z(char c, const string &k) { Op o; o.c = c; o.a = k; return o; }
static Op Y(int n) { Op o; o.c = 'Y'; o.i = n; return o; }
static Op N(int n) { Op o; o.c = 'N'; o.i = n; return o; }
static Op K(int n) { Op o; o.c = 'K'; o.i = n; return o; }
static Op B(int ord, int i, int j, int s = 1) { Op o; o.c = 'B'; o.o = ord; o.i = i; o.j = j; o.s = s; return o; }
static Op X(int ord, int i, int j, int s = 1) { Op o; o.c = 'X'; o.o = ord; o.i = i; o.j = j; o.s = s; return o; }

static vector<Scen> plan(const string &impl, bool thorough, string &bounds) {
    const bool integer = impl == "wh_int", side = MEM || impl == "whk" || impl == "whu";      // side: the other interfaces of the byte-string index, in a smaller space
    vector<Scen> v;
    auto us = universes(integer);
    if (side && !thorough) { vector<Univ> f; for (auto &u : us) for (auto *n : {"dense", "mirror", "words-00-61-ff", "prefix-pairs", "long-prefix", "comb", "longest-anchor"}) if (u.name == n) f.push_back(u); us = f; }
    // 1. all short histories from the empty map over tricky short keys
    {
        vector<string> k = {"", string("\0", 1), "a", string("a\0", 2), "aa", "b", "\xff"};
        Scen s; s.name = "small"; s.univ = "none"; s.probes = k; s.depth = thorough ? 5 : side ? 3 : 4; s.deep = true;
        for (auto &x : k) { s.alphabet.push_back({P(x)}); s.alphabet.push_back({D(x)}); }
        s.alphabet.push_back({S("")}); s.alphabet.push_back({R("a", "b")}); s.alphabet.push_back({R("", "aa")}); s.alphabet.push_back({G("a")});
        if (!integer) { for (auto &x : {k[0], k[2], k[3]}) s.alphabet.push_back({Z('M', x)}); s.alphabet.push_back({Z('U', "a")}); s.alphabet.push_back({Z('m', "a")}); s.alphabet.push_back({Z('m', "")}); }
        v.push_back(s);
    }
    for (auto &u : us) {
        const int n = u.k.size();
        const bool huge = u.name == "longest-anchor", heavy = u.name == "kilobytes" || huge;
        if (huge) {     // grow and shrink in a few orders
            for (int go : {0, 1}) for (int so : {0, 1, 2}) {
                Scen s; s.name = strf("huge grow=%d shrink=%d", go, so); s.univ = u.name; s.every = 2; s.probes = {u.k[0], u.k[1], u.k[31], u.k[33], u.k[n - 1], string(65533, 'M'), string(65532, 'M') + "N"};
                s.ramp = {{B(go, 0, 40)}, {B(go, 40, n)}, {X(so, 0, 20)}, {X(so, 20, n - 3)}, {B(1 - go, 0, n)}, {X(so, 0, n)}}; v.push_back(s);
            }
            continue;
        }
        // 2. from filled maps: all short histories of single operations around the leaf borders
        for (int fill : {16, 31, 32, 33, 40, 48, 64, 80}) for (int ord = 0; ord < 3; ord++) for (int st : {1, 2}) {
            if (fill * st > n) continue;
            if (heavy && (fill != 33 && fill != 64)) continue;
            if (!thorough && side && fill != 31 && fill != 33 && fill != 64) continue;
            if (!thorough && (fill == 40 || fill == 48) && ord == 2) continue;
            Scen s; s.name = strf("filled %s n=%d order=%d step=%d", u.name.c_str(), fill, ord, st); s.univ = u.name; s.pre = {B(ord, 0, fill * st, st)};
            vector<int> pos = {0, 1, 7, 8, 15, 16, 23, 24, 31, 32, 33, 47, 63, fill * st - 1, fill * st, n - 1};
            std::sort(pos.begin(), pos.end()); pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
            vector<string> ks; for (int p : pos) if (p >= 0 && p < n) ks.push_back(u.k[p]);
            s.probes = ks; s.depth = 2; s.deep = false;
            for (size_t i = 0; i < ks.size(); i++) {
                s.alphabet.push_back({P(ks[i])}); s.alphabet.push_back({D(ks[i])});
                if (i % 3 == 0) s.alphabet.push_back({S(ks[i])});
                if (!integer && i % 4 == 2) s.alphabet.push_back({Z('M', ks[i])}); if (!integer && i % 5 == 3) s.alphabet.push_back({Z('U', ks[i])});
                if (i % 4 == 1) for (size_t j = i; j < ks.size(); j += 4) s.alphabet.push_back({R(ks[i], ks[j])});
            }
            v.push_back(s);
        }
        // 3. block histories: puts and deletes of whole blocks, in both directions, with and without a sorting seek between
        {
            Scen s; s.name = "blocks " + u.name; s.univ = u.name; s.depth = heavy || (side && !thorough) ? 2 : thorough ? 4 : 3;
            for (int i = 0; i < n; i += 7) s.probes.push_back(u.k[i]);
            const int bl = 16;
            for (int b = 0; b + bl <= std::min(n, 96); b += bl) {
                s.alphabet.push_back({B(0, b, b + bl)}); s.alphabet.push_back({B(1, b, b + bl)});
                s.alphabet.push_back({X(0, b, b + bl)}); s.alphabet.push_back({X(1, b, b + bl)});
            }
            s.alphabet.push_back({B(2, 0, 96, 3)}); s.alphabet.push_back({X(2, 0, 96, 3)}); s.alphabet.push_back({S("")});
            s.alphabet.push_back({R(u.k[5], u.k[std::min(n - 1, 60)])}); { Op c; c.c = 'C'; s.alphabet.push_back({c}); }
            v.push_back(s);
        }
        // 4. iterator walks of every kind over filled maps
        for (int fill : {0, 3, 33, 70}) {
            if (heavy && fill != 33) continue;
            Scen s; s.name = strf("iterator %s n=%d", u.name.c_str(), fill); s.univ = u.name; s.iteronly = true; s.depth = thorough ? 5 : side ? 3 : 4;
            if (fill) s.pre = {B(fill == 33 ? 1 : 0, 0, std::min(n, fill * 1)), X(0, 10, 14)};
            if (fill) s.pre[1] = X(0, 1, 2);
            for (int p : {0, 1, 2, 15, 16, 31, 32, fill - 1, fill}) if (p >= 0 && p < n) s.alphabet.push_back({S(u.k[p])});
            s.alphabet.push_back({N(1)}); s.alphabet.push_back({N(-1)}); s.alphabet.push_back({N(17)}); s.alphabet.push_back({N(-17)});
            s.alphabet.push_back({K(0)}); s.alphabet.push_back({K(2)}); s.alphabet.push_back({K(31)}); s.alphabet.push_back({K(33)});
            v.push_back(s);
        }
        // 4b. cycles: the same grow and shrink again and again
        if (MEM) for (int go = 0; go < 3; go++) {
            Scen s; s.name = strf("cycles %s grow=%d", u.name.c_str(), go); s.univ = u.name; s.depth = 1; const int nn = std::min(n, 96);
            for (int i = 0; i < n; i += 7) s.probes.push_back(u.k[i]);
            const int times = heavy ? 40 : 300; Op c; c.c = 'C';
            for (int so = 0; so < 3; so++) for (int st : {1, 3}) { vector<Op> a; for (int b = 0; b < st; b++) a.push_back(B(go, b, nn, st)); for (int b = 0; b < st; b++) a.push_back(X(so, b, nn, st)); a.push_back(Y(times)); s.alphabet.push_back(a); }
            s.alphabet.push_back({B(go, 0, nn), S(""), R(u.k[1], u.k[nn - 1]), Y(times)}); s.alphabet.push_back({B(go, 0, nn), R("", u.k[nn / 2]), Y(times)});
            s.alphabet.push_back({B(go, 0, nn), c, Y(times)}); s.alphabet.push_back({B(go, 0, nn, 2), X(0, 0, nn / 2, 2), B(go, 1, nn, 2), X(1, 0, nn / 2), Y(times)});
            if (!integer) s.alphabet.push_back({B(go, 0, nn, 2), Z('M', u.k[0]), Z('M', u.k[1]), Z('U', u.k[2]), X(0, 0, nn), Y(times)});
            v.push_back(s);
        }
        // 5. ramps: grow to the whole universe and shrink to nothing, one key at a time, in several orders
        for (int go = 0; go < 3; go++) for (int so = 0; so < 3; so++) for (int st : {1, 5}) for (int sorting = 0; sorting < 2; sorting++) {
            if (side && !thorough && (st == 1 || go == 1 || so == 0)) continue;
            Scen s; s.name = strf("ramp %s grow=%d shrink=%d stride=%d sorting=%d", u.name.c_str(), go, so, st, sorting); s.univ = u.name; s.probes = u.k; s.every = heavy ? 16 : 1;
            for (int pass = 0; pass < 2; pass++) {
                for (int r = 0; r < st; r++) for (int i : order(go, r, n, st)) { vector<Op> o{!integer && i % 7 == 3 ? Z('M', u.k[i]) : P(u.k[i])}; if (!integer && i % 11 == 5) o.push_back(Z('U', u.k[i / 2])); if (sorting && i % 3 == 0) o.push_back(S(u.k[n / 2])); s.ramp.push_back(o); }
                for (int r = 0; r < st; r++) for (int i : order(so, r, n, st)) { vector<Op> o{D(u.k[i])}; if (sorting && i % 3 == 1) o.push_back(S(u.k[n / 3])); s.ramp.push_back(o); }
            }
            if (!sorting) { // no iterator in between, so that leaves stay as the operations left them: lookups only
                s.every = heavy ? 64 : 37; }
            v.push_back(s);
        }
    }
    // 6. large maps: growth of the anchor table, thousands of leaves
    for (int kind = 0; kind < (thorough ? 8 : side ? 1 : 4); kind++) {
        const int n = kind & 4 ? 200000 : 40000;
        Scen s; s.name = strf("large %d", kind); s.univ = strf("large%d", kind); s.every = 10;
        const Univ &u = universe(s.univ, integer);
        for (size_t i = 0; i < u.k.size(); i += 97) s.probes.push_back(u.k[i]);
        for (int o = 0; o < 2; o++) {
            for (int i = 0; i < 20; i++) s.ramp.push_back({kind & 1 ? B(o, i, n, 20) : B(o, n / 20 * i, n / 20 * (i + 1))});
            for (int i = 0; i < 20; i++) s.ramp.push_back({kind & 1 ? X(o, i, n, 20) : X(o, n / 20 * i, n / 20 * (i + 1))});
        }
        v.push_back(s);
    }
    bounds = strf("%s; keys from %zu key universes of up to 127 keys each (dense, spread, mirrored, prefix chains, zero bytes%s); all operation sequences of depth %d over 18 operations from the empty map; all sequences of depth 2 over 30-50 operations from maps filled with 16..80 keys in 3 orders; all sequences of depth %d over 16-key block insertions/deletions; all iterator-movement sequences of depth %d; 36 grow/shrink ramps per universe%s", integer ? "integer index" : "byte-string index", us.size(), integer ? "" : ", long keys", thorough ? 5 : 4, thorough ? 4 : 3, thorough ? 5 : 4, integer ? "" : "; the interfaces with kv blocks and without synchronisation in a smaller space");
    return v;
}

int main(int argc, char **argv) {
    parse_args(argc, argv); init_shm();
    const bool integer = opt.prop == "C12";
    auto rep = [&](const string &t) { if (t.compare(0, 6, "wh_int") == 0) replay<WI>(t); else if (t.compare(0, 3, "whk") == 0) replay<WK>(t); else if (t.compare(0, 3, "whu") == 0) replay<WU>(t); else replay<WH>(t); };
    if (!opt.replay.empty()) {
        std::ifstream f(opt.replay); std::stringstream ss; ss << f.rdbuf();
        const string why = isolated([&] { rep(ss.str()); }, 60);
        printf("%s\n", why.empty() ? "history holds" : why.c_str());
        return why.empty() ? 0 : 1;
    }
    string bounds; static map<string, vector<Scen>> all; const vector<string> impls = MEM ? vector<string>{"wh_int", "whu", "whk", "wh"} : integer ? vector<string>{"wh_int"} : vector<string>{"whu", "whk", "wh"};
    for (auto &i : impls) all[i] = plan(i, opt.tier == "thorough", bounds);
    const string impl = impls.back(); const auto &sc = all[impl];
    vector<Job> jobs; vector<string> samples;
    for (auto &im : impls) for (auto &s : all[im]) {
        if (!opt.only.empty() && s.name.find(opt.only) == string::npos) continue;
        const int n = s.ramp.empty() ? s.alphabet.size() : 1;
        for (int i = 0; i < n; i++) jobs.push_back({im + " " + s.name + strf(" #%d", i), [&s, i, im] {
            if (im == "wh_int") Explore<WI>(s, im).run(i); else if (im == "whk") Explore<WK>(s, im).run(i); else if (im == "whu") Explore<WU>(s, im).run(i); else Explore<WH>(s, im).run(i); }});
    }
    if (opt.list) { for (auto &j : jobs) puts(j.name.c_str()); return 0; }
    auto r = run_jobs(jobs, rep, 60);
    for (size_t i = 0; i < sc.size() && samples.size() < 6; i += 1 + sc.size() / 6) {
        vector<Op> ops; for (auto &a : sc[i].alphabet) if ((int) ops.size() < sc[i].depth) ops.insert(ops.end(), a.begin(), a.end());
        samples.push_back(sc[i].name + ": " + oneline(case_text(impl, sc[i].univ, sc[i].pre, ops)).substr(0, 500));
    }
    return report(r, samples, bounds, "single-threaded use (concurrency is C13); iterators are released before writing, as the library demands; keys of the integer index are handed over in buffers of at least eight bytes; slab blocks of 32 KB instead of 2 MB");
}
