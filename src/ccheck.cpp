// C13: every schedule of small concurrent programs on the two ordered indexes, within a bound on preemptions,
// checked for linearizability against a sorted map.
#include <algorithm>
#include "engine.hpp"
#include "conc_rt.hpp"
extern "C" {
#include "wh.h"
#include "wh_int.h"
struct slab *slab_create(const u64, const u64);
struct slab *vf_slab_create(const u64 o, const u64) { return slab_create(o, 32768); }
// how often a trial lock tries before its caller looks again only matters for speed
bool vf_rwlock_trylock_read_nr(rwlock *l, u16) { return rwlock_trylock_read_nr(l, 1); }
bool vf_rwlock_trylock_write_nr(rwlock *l, u16) { return rwlock_trylock_write_nr(l, 1); }
}
using namespace vf;
using std::string; using std::vector;

// ---- keys and values --------------------------------------------------------------------------
struct Univ { string name; vector<string> k; };
static vector<Univ> make_universes() {
    vector<Univ> u; vector<string> k;
    auto be = [](uint64_t v, int n) { string s; for (int i = n - 1; i >= 0; i--) s += char(v >> (8 * i)); return s; };
    auto add = [&](const char *n) { std::sort(k.begin(), k.end()); u.push_back({n, k}); k.clear(); };
    for (int i = 0; i < 124; i++) k.push_back(be(0x1122334455660000ull + i * 3, 8)); add("dense");
    // (the integer index chooses where to split by the mirrored byte: only keys like these split in the middle)
    for (int i = 0; i < 124; i++) k.push_back(be(0x1100000000000011ull + (0x0001000000000100ull * (i * 2 + 1)), 8)); add("mirror");
    for (int i = 0; i < 124; i++) k.push_back(string(1, char(i * 2 + 1)) + "abcdefg"); add("first");
    for (int i = 0; i < 100; i++) k.push_back(be(0x0101010101010101ull * (i / 7) + (0x0203ull << (8 * (i % 7))), 8)); std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end()); add("spread");
    return u;
}
static const Univ &universe(const string &n) { static const vector<Univ> u = make_universes(); for (auto &x : u) if (x.name == n) return x; return u[0]; }
static string value(bool integer, int v) { return integer ? strf("%016d", v) : strf("%08d", v); }

// ---- programs ---------------------------------------------------------------------------------
// P k v put   D k delete   B k probe   G k get   U k add 1000 in place   M k merge (add 1000, or insert 7)
// R a b delete range [a,b)   S k seek+peek   N step+peek   V step back+peek   E park the iterator
// K get through the interface that copies the whole entry
// (wh+, wh_int+: the thread announces itself once around its body and uses the operations that do not do it themselves)
// F take an own reference (instead of one taken beforehand; F n: at another address)   Q give it back
struct Op { char c; int a = 0, b = 0; };
struct Pre { char c; int i, j, s; };        // + insert keys i..j-1 step s, - delete likewise, ~ seek (sorts a node), & take j references
struct Prog { bool integer; bool raw = false; string univ; vector<Pre> pre; vector<vector<Op>> th; };
struct Res { int r = 0, v = 0; uint64_t t0 = 0, t1 = 0; };

static string op_text(const Op &o) { switch (o.c) { case 'P': case 'R': return strf("%c %d %d", o.c, o.a, o.b); case 'N': case 'V': case 'E': case 'Q': return string(1, o.c); case 'F': return o.a ? strf("F %d", o.a) : string("F"); default: return strf("%c %d", o.c, o.a); } }
static string prog_text(const Prog &p) {
    string t = string(p.integer ? "wh_int" : "wh") + (p.raw ? "+ " : " ") + p.univ + "\n";
    for (auto &x : p.pre) t += strf("pre %c %d %d %d\n", x.c, x.i, x.j, x.s);
    for (auto &th : p.th) { t += "thread"; for (auto &o : th) t += " " + op_text(o) + ";"; t += "\n"; }
    return t;
}
static string devs_text(const vector<rt::Dev> &d) { string t = "schedule"; for (auto &x : d) t += strf(" %d@%lu>%d%s", x.t, (unsigned long) x.idx, x.to, x.delay ? "*" : ""); return t + "\n"; }
static Prog parse(const string &t, vector<rt::Dev> &d) {
    Prog p; std::istringstream is(t); string l; std::getline(is, l); p.integer = l.compare(0, 6, "wh_int") == 0; p.univ = l.substr(l.find(' ') + 1); p.raw = l.find('+') < l.find(' ');
    while (std::getline(is, l)) {
        if (l.compare(0, 4, "pre ") == 0) { Pre x; sscanf(l.c_str(), "pre %c %d %d %d", &x.c, &x.i, &x.j, &x.s); p.pre.push_back(x); }
        else if (l.compare(0, 6, "thread") == 0) {
            vector<Op> ops; std::istringstream ls(l.substr(6)); string o;
            while (std::getline(ls, o, ';')) { Op x; if (sscanf(o.c_str(), " %c %d %d", &x.c, &x.a, &x.b) >= 1) ops.push_back(x); }
            p.th.push_back(ops);
        } else if (l.compare(0, 8, "schedule") == 0) {
            std::istringstream ls(l.substr(8)); string o;
            while (ls >> o) { rt::Dev x; unsigned long n; sscanf(o.c_str(), "%d@%lu>%d", &x.t, &n, &x.to); x.idx = n; x.delay = o.back() == '*'; d.push_back(x); }
        }
    }
    return p;
}

// ---- the implementations ----------------------------------------------------------------------
struct KB { unsigned char b[16]; KB(const string &k) { memset(b, 0x5a, sizeof b); memcpy(b, k.data(), std::min<size_t>(8, k.size())); } };
static const Univ *U; static bool INT;
static wormhole *wm; static wormref *wr[rt::NT + 1]; static wormhole_iter *wi[rt::NT];
static wormhole_int *im; static wormref_int *ir[rt::NT + 1]; static wormhole_int_iter *ii[rt::NT];
static int vnum(const char *b, unsigned n) { int v = 0; if (n != (INT ? 16u : 8u)) return -2; for (unsigned i = 0; i < n; i++) { if (b[i] < '0' || b[i] > '9') return -3; v = v * 10 + b[i] - '0'; } return v; }
static int keyno(const string &k) { auto i = std::lower_bound(U->k.begin(), U->k.end(), k); return i != U->k.end() && *i == k ? int(i - U->k.begin()) : -5; }
static bool RAW, raw;       // raw: inside the bodies of a program that announces its threads once
template <class F> static auto with(int k, F f) { const string &s = U->k[k]; struct kref r; if (INT) { KB q(s); kref_ref_hash32(&r, q.b, s.size()); return f(r); } kref_ref_hash32(&r, (const u8 *) s.data(), s.size()); return f(r); }
static bool x_put(int t, int k, int v) {
    const string &s = U->k[k], w = value(INT, v);
    if (INT) { KB q(s); if (!raw) return wh_int_put(ir[t], q.b, s.size(), w.data(), w.size()); struct kv *n = kv_create(q.b, s.size(), w.data(), w.size()); const bool r = wormhole_int_put(ir[t], n); rt::release(n); return r; }
    return raw ? wormhole_put(wr[t], kv_create(s.data(), s.size(), w.data(), w.size())) : wh_put(wr[t], s.data(), s.size(), w.data(), w.size());
}
static bool x_del(int t, int k) { const string &s = U->k[k]; if (raw) return with(k, [&](auto &r) { return INT ? wormhole_int_del(ir[t], &r) : wormhole_del(wr[t], &r); }); if (INT) { KB q(s); return wh_int_del(ir[t], q.b, s.size()); } return wh_del(wr[t], s.data(), s.size()); }
static bool x_probe(int t, int k) { const string &s = U->k[k]; if (raw) return with(k, [&](auto &r) { return INT ? wormhole_int_probe(ir[t], &r) : wormhole_probe(wr[t], &r); }); if (INT) { KB q(s); return wh_int_probe(ir[t], q.b, s.size()); } return wh_probe(wr[t], s.data(), s.size()); }
static int kvnum(const struct kv *c) { return vnum((const char *) c->kv + c->klen, c->vlen); }
static void get_cb(struct kv *c, void *p) { if (c) { rt::plain((rt::ad) c, 32, false); *(int *) p = kvnum(c); } }
static int x_copy(int t, int k) {
    u64 buf[16]; struct kv *o = (struct kv *) buf, *g;
    g = with(k, [&](auto &r) { return INT ? (raw ? wormhole_int_get(ir[t], &r, o) : whsafe_int_get(ir[t], &r, o)) : (raw ? wormhole_get(wr[t], &r, o) : whsafe_get(wr[t], &r, o)); });
    return g ? g->klen == U->k[k].size() && !memcmp(g->kv, U->k[k].data(), g->klen) ? kvnum(g) : -7 : -1;
}
static int x_get(int t, int k) { if (raw) { if (INT) return x_copy(t, k); int v = -1; with(k, [&](auto &r) { return wormhole_inpr(wr[t], &r, get_cb, &v); }); return v; } const string &s = U->k[k]; char b[64]; u32 n = 0; bool r; if (INT) { KB q(s); r = wh_int_get(ir[t], q.b, s.size(), b, 64, &n); } else r = wh_get(wr[t], s.data(), s.size(), b, 64, &n); return r ? vnum(b, n) : -1; }
static int x_delr(int t, int a, int b) { const string &s = U->k[a], &e = U->k[b]; if (raw) return with(a, [&](auto &x) { return with(b, [&](auto &y) { return (int) (INT ? wormhole_int_delr(ir[t], &x, &y) : wormhole_delr(wr[t], &x, &y)); }); }); if (INT) { KB q(s), p(e); return wh_int_delr(ir[t], q.b, s.size(), p.b, e.size()); } return wh_delr(wr[t], s.data(), s.size(), e.data(), e.size()); }
static void x_peek(int t, Res &r) {
    char kb[64], vb[64]; u32 kn = 0, vn = 0; bool ok = INT ? wh_int_iter_peek(ii[t], kb, 64, &kn, vb, 64, &vn) : wh_iter_peek(wi[t], kb, 64, &kn, vb, 64, &vn);
    if (!ok) { r.r = -1; r.v = 0; return; }
    r.r = keyno(string(kb, std::min<u32>(kn, 64))); r.v = vnum(vb, vn);
}
static void x_seek(int t, int k) {
    const string &s = U->k[k];
    if (INT) { if (!ii[t]) ii[t] = wh_int_iter_create(ir[t]); } else if (!wi[t]) wi[t] = wh_iter_create(wr[t]);
    if (raw) { with(k, [&](auto &r) { if (INT) wormhole_int_iter_seek(ii[t], &r); else wormhole_iter_seek(wi[t], &r); return 0; }); return; }
    if (INT) { KB q(s); wh_int_iter_seek(ii[t], q.b, s.size()); } else wh_iter_seek(wi[t], s.data(), s.size());
}
static void x_next(int t) { if (INT) wh_int_iter_skip1(ii[t]); else wh_iter_skip1(wi[t]); }
static void x_prev(int t) { if (INT) wh_int_iter_skip1_rev(ii[t]); else wh_iter_skip1_rev(wi[t]); }
static void x_park(int t) {
    if (INT) { if (ii[t]) { if (raw) wormhole_int_iter_destroy(ii[t]); else wh_int_iter_destroy(ii[t]); } ii[t] = nullptr; }
    else { if (wi[t]) { if (raw) wormhole_iter_destroy(wi[t]); else wh_iter_destroy(wi[t]); } wi[t] = nullptr; }
}
static void bump_value(char *b, int add) { rt::plain((rt::ad) b, 8, false); int v = vnum(b, 8); rt::plain((rt::ad) b, 8, true); char n[9]; snprintf(n, 9, "%08d", v + add); memcpy(b, n, 8); }
static void inp_cb(struct kv *c, void *priv) { if (!c) { *(int *) priv = -1; return; } char *b = (char *) c->kv + c->klen; rt::plain((rt::ad) b, 8, false); *(int *) priv = vnum(b, 8); bump_value(b, 1000); }
struct Mrg { int old; const string *k; };
static struct kv *merge_cb(struct kv *c, void *priv) {
    Mrg *m = (Mrg *) priv; int v = 7;
    if (c) { char *b = (char *) c->kv + c->klen; rt::plain((rt::ad) b, 8, false); m->old = vnum(b, 8); v = m->old + 1000; } else m->old = -1;
    const string w = value(false, v); return kv_create(m->k->data(), m->k->size(), w.data(), w.size());
}
static const Prog *PR; static vector<Res> RES[rt::NT];
static void run_op(int t, const Op &o, Res &r) {
    switch (o.c) {
        case 'P': r.r = x_put(t, o.a, o.b); break;
        case 'D': r.r = x_del(t, o.a); break;
        case 'B': r.r = x_probe(t, o.a); break;
        case 'G': r.r = x_get(t, o.a); break;
        case 'K': r.r = x_copy(t, o.a); break;
        case 'U': { int old = -9; if (raw) with(o.a, [&](auto &r) { return wormhole_inpw(wr[t], &r, inp_cb, &old); }); else wh_inpw(wr[t], U->k[o.a].data(), U->k[o.a].size(), inp_cb, &old); r.r = old; break; }
        case 'M': { Mrg m{-9, &U->k[o.a]}; if (raw) with(o.a, [&](auto &r) { return wormhole_merge(wr[t], &r, merge_cb, &m); }); else wh_merge(wr[t], U->k[o.a].data(), U->k[o.a].size(), merge_cb, &m); r.r = m.old; break; }
        case 'R': r.r = x_delr(t, o.a, o.b); break;
        case 'S': x_seek(t, o.a); x_peek(t, r); break;
        case 'N': x_next(t); x_peek(t, r); break;
        case 'V': x_prev(t); x_peek(t, r); break;
        case 'E': x_park(t); break;
        case 'F': if (o.a) rt::alloc(64 * o.a, 64); if (INT) ir[t] = wh_int_ref(im); else wr[t] = wh_ref(wm); r.r = INT ? ir[t] != 0 : wr[t] != 0; break;
        case 'Q': if (INT) { wh_int_unref(ir[t]); } else { wh_unref(wr[t]); } break;
    }
}
static void thread_body(int t) {
    if (raw) { if (INT) wormhole_int_resume(ir[t]); else wormhole_resume(wr[t]); }
    for (size_t i = 0; i < PR->th[t].size(); i++) { Res &r = RES[t][i]; r.t0 = ++rt::tick; run_op(t, PR->th[t][i], r); r.t1 = ++rt::tick; rt::fb[rt::cur].nspin = 0; }
    if (raw) { if (INT) wormhole_int_park(ir[t]); else wormhole_park(wr[t]); }
}

// ---- the specification: a sorted map ------------------------------------------------------------
static constexpr int MAXK = 128;
struct Model { int v[MAXK]; };
static Model M0; static int NK;
static int up(const Model &m, int k) { for (; k < NK; k++) if (m.v[k] >= 0) return k; return -1; }
static int down(const Model &m, int k) { for (; k >= 0; k--) if (m.v[k] >= 0) return k; return -1; }
static Res expect(Model &m, const Op &o, int prev) {        // prev: position of the iterator, -1 at the end
    Res r;
    auto at = [&](int k) { r.r = k; r.v = k >= 0 ? m.v[k] : 0; };
    switch (o.c) {
        case 'P': r.r = 1; m.v[o.a] = o.b; break;
        case 'D': r.r = m.v[o.a] >= 0; m.v[o.a] = -1; break;
        case 'B': r.r = m.v[o.a] >= 0; break;
        case 'G': case 'K': r.r = m.v[o.a]; break;
        case 'U': r.r = m.v[o.a]; if (r.r >= 0) m.v[o.a] += 1000; break;
        case 'M': r.r = m.v[o.a]; m.v[o.a] = r.r >= 0 ? r.r + 1000 : 7; break;
        case 'R': r.r = 0; for (int k = o.a; k < o.b; k++) if (m.v[k] >= 0) { r.r++; m.v[k] = -1; } break;
        case 'S': at(up(m, o.a)); break;
        case 'N': at(prev < 0 ? -1 : up(m, prev + 1)); break;
        case 'V': at(prev < 0 ? -1 : down(m, prev - 1)); break;
        case 'F': r.r = 1; break;
    }
    return r;
}
static int FINAL[MAXK];                       // what is in the index afterwards
static bool lin(const Model &m, unsigned *pos, string &best, unsigned &bestn, unsigned n) {
    const int T = PR->th.size(); bool all = true;
    for (int t = 0; t < T; t++) all &= pos[t] == PR->th[t].size();
    if (all) { if (n >= bestn) { bestn = n + 1; best = "the contents afterwards"; } return memcmp(m.v, FINAL, sizeof(int) * NK) == 0; }
    for (int t = 0; t < T; t++) {
        if (pos[t] == PR->th[t].size()) continue;
        const Res &r = RES[t][pos[t]];
        bool ok = true;         // nothing still to be ordered may have returned before this one was called
        for (int u = 0; u < T && ok; u++) if (u != t && pos[u] < PR->th[u].size() && RES[u][pos[u]].t1 < r.t0) ok = false;
        if (!ok) continue;
        Model k = m; const int prev = pos[t] ? RES[t][pos[t] - 1].r : -1;
        const Res e = expect(k, PR->th[t][pos[t]], prev);
        if (e.r != r.r || e.v != r.v) { if (n >= bestn) { bestn = n; best = strf("thread %d, ", t) + op_text(PR->th[t][pos[t]]) + strf(" returned %d/%d", r.r, r.v); } continue; }
        pos[t]++; const bool good = lin(k, pos, best, bestn, n + 1); pos[t]--;
        if (good) return true;
    }
    return false;
}
static string results_text() {
    string s; for (size_t t = 0; t < PR->th.size(); t++) for (size_t i = 0; i < PR->th[t].size(); i++) s += strf(" T%zu:", t) + op_text(PR->th[t][i]) + strf("=%d/%d[%lu,%lu]", RES[t][i].r, RES[t][i].v, (unsigned long) RES[t][i].t0, (unsigned long) RES[t][i].t1);
    return s;
}

// what is left, through every way of reading it
static bool deep; static string post_why;
static void scan(int t, int *out) {
    for (int k = 0; k < NK; k++) { out[k] = x_get(t, k); if (x_probe(t, k) != (out[k] != -1) && post_why.empty()) post_why = strf("afterwards probe and get disagree on key %d", k); }
    Res r; x_seek(t, 0); x_peek(t, r); int exp = 0, n = 0;
    for (;;) { while (exp < NK && out[exp] == -1) exp++; const int e = exp < NK ? exp : -1; if (r.r != e || (e >= 0 && r.v != out[e])) { if (post_why.empty()) post_why = strf("afterwards a walk is on key %d value %d where lookups say %d value %d", r.r, r.v, e, e >= 0 ? out[e] : 0); break; } if (e < 0 || ++n > 2 * MAXK) break; x_next(t); x_peek(t, r); exp++; }
    x_park(t);
    int last = NK - 1; while (last >= 0 && out[last] == -1) last--;
    if (last >= 0) { x_seek(t, last); x_peek(t, r); for (n = 0, exp = last; n < 2 * MAXK; n++) { while (exp >= 0 && out[exp] == -1) exp--; const int e = exp; if (r.r != e) { if (post_why.empty()) post_why = strf("afterwards a walk back is on key %d where lookups say %d", r.r, e); break; } if (e < 0) break; x_prev(t); x_peek(t, r); exp--; } x_park(t); }
}
static void post_body(int t) {
    if (INT) ir[t] = ir[rt::NT]; else wr[t] = wr[rt::NT];
    scan(t, FINAL);
    if (!deep || !post_why.empty()) return;
    // both copies of the anchor table must be right: keep using the index until it has split and merged in both
    int m[MAXK]; memcpy(m, FINAL, sizeof m); int c[MAXK];
    for (int k = 0; k < NK; k++) if (m[k] == -1) { if (!x_put(t, k, 500 + k)) { post_why = strf("afterwards put of key %d is refused", k); return; } m[k] = 500 + k; }
    scan(t, c); for (int k = 0; k < NK; k++) if (c[k] != m[k]) { post_why = strf("afterwards, after filling the index, key %d has value %d instead of %d", k, c[k], m[k]); return; }
    for (int k = 1; k < NK; k++) if (k % 9) { if (!x_del(t, k)) { post_why = strf("afterwards delete of key %d finds nothing", k); return; } m[k] = -1; }
    scan(t, c); for (int k = 0; k < NK; k++) if (c[k] != m[k]) { post_why = strf("afterwards, after thinning the index, key %d has value %d instead of %d", k, c[k], m[k]); return; }
}

// ---- one program ------------------------------------------------------------------------------
static size_t keep0 = 0; static std::set<uint64_t> seen_final;
static void setup(const Prog &p) {
    PR = &p; INT = p.integer; RAW = p.raw; raw = false; U = &universe(p.univ); NK = U->k.size();
    rt::boot(); if (!keep0) keep0 = (rt::bump[rt::NT] + 4095) / 4096 * 4096;
    rt::cur = -1; rt::fresh_arena(keep0); seen_final.clear();
    for (auto &x : M0.v) x = -1;
    const int me = rt::NT;
    for (auto &x : wi) x = nullptr; for (auto &x : ii) x = nullptr;
    if (INT) { im = wh_int_create(); ir[me] = wh_int_ref(im); } else { wm = wh_create(); wr[me] = wh_ref(wm); }
    for (auto &x : p.pre) {
        if (x.c == '~') { if (INT) { KB q(U->k[x.i]); auto *it = wh_int_iter_create(ir[me]); wh_int_iter_seek(it, q.b, 8); wh_int_iter_destroy(it); } else { auto *it = wh_iter_create(wr[me]); wh_iter_seek(it, U->k[x.i].data(), U->k[x.i].size()); wh_iter_destroy(it); } continue; }
        if (x.c == '&') { for (int k = x.i; k < x.j; k++) { if (INT) wh_int_ref(im); else wh_ref(wm); } continue; }
        for (int k = x.i; k < x.j && k < NK; k += x.s) if (x.c == '+') { x_put(me, k, k); M0.v[k] = k; } else if (x.c == '-') { x_del(me, k); M0.v[k] = -1; }
    }
    for (size_t t = 0; t < p.th.size(); t++) {
        if (p.th[t].size() && p.th[t][0].c == 'F') { ir[t] = nullptr; wr[t] = nullptr; continue; }
        if (INT) ir[t] = wh_int_ref(im); else wr[t] = wh_ref(wm);
    }
    rt::take_snapshot();
}
static void one(const Prog &p, const vector<rt::Dev> &d, int bound) {
    for (size_t t = 0; t < p.th.size(); t++) { RES[t].assign(p.th[t].size(), Res()); }
    for (auto &x : wi) x = nullptr; for (auto &x : ii) x = nullptr;
    wormref *w0[rt::NT]; wormref_int *i0[rt::NT]; memcpy(w0, wr, sizeof w0); memcpy(i0, ir, sizeof i0);
    try {
        raw = RAW; rt::execute(p.th.size(), thread_body, d, bound); raw = false;
        const uint64_t h = rt::state_hash(); uint64_t hr = h;
        for (auto &v : RES) for (auto &r : v) hr = hash_bytes(&r, sizeof r, hr);
        deep = seen_final.insert(h).second;
        if (seen_final.insert(hr).second) {
            if (shm) { shm->states++; }
            post_why.clear(); auto alts = rt::alts;
            rt::afterwards(post_body);
            rt::alts = alts;
            if (!post_why.empty()) throw Fail{post_why + ";" + results_text()};
            unsigned pos[rt::NT] = {}; string best; unsigned bn = 0;
            if (!lin(M0, pos, best, bn, 0)) throw Fail{"no order of the operations explains what they returned and what is left (" + best + ");" + results_text()};
        }
    } catch (Fail &) { raw = false; memcpy(wr, w0, sizeof w0); memcpy(ir, i0, sizeof i0); throw; }
    memcpy(wr, w0, sizeof w0); memcpy(ir, i0, sizeof i0);
    if (shm) { shm->execs++; shm->traces++; shm->transitions += rt::nswitch; } rt::nswitch = 0;
}
struct Explore {
    const Prog &p; int bound, maxdev; string text; uint64_t n = 0, cap;
    void rec(vector<rt::Dev> &d, int used, int freeused) {
        announce(text + devs_text(d));
        one(p, d, bound); n++;
        if (n > 20 * cap && bound > 1) { shm->truncated++; return; }
        auto alts = rt::alts;
        for (auto &a : alts) {
            const bool fr = !a.cost && a.d.t >= 0;
            if (used + a.cost > bound || (fr && freeused >= maxdev)) continue;
            d.push_back(a.d); rec(d, used + a.cost, freeused + fr); d.pop_back();
            if (n > 20 * cap && bound > 1) return;
        }
    }
    // rounds until no new conflicting location shows up, then one more preemption as long as that stays affordable
    int run(int maxb) {
        uint64_t prev = 1; int b = 0;
        for (b = 0; b <= maxb; b++) {
            for (int round = 0; round < 8; round++) {
                bound = b; n = 0; vector<rt::Dev> d; rec(d, 0, 0);
                if (!rt::grew) break;
                rt::commit_conf();
            }
            if (b >= 1 && (n > cap || n * std::max<uint64_t>(2, n / std::max<uint64_t>(1, prev)) > cap)) { b++; break; }
            prev = n;
        }
        return b - 1;
    }
};
static void explore(const Prog &p, int bound, uint64_t cap) {
    setup(p); Explore e{p, bound, opt.tier == "thorough" ? 2 : 1, prog_text(p), 0, cap}; const int b = e.run(bound);
    shm->outcomes[std::min(31, b)]++;      // programs by the preemption bound that was covered completely
    if (getenv("VF_STATS")) { FILE *f = fopen(getenv("VF_STATS"), "a"); size_t c = 0; for (auto g : rt::touched) c += rt::conf[g]; fprintf(f, "%8lu %4zu b%d %s\n", (unsigned long) e.n, c, b, oneline(prog_text(p)).c_str()); fclose(f); }
}

// ---- plan -------------------------------------------------------------------------------------
#include "cplan.hpp"

int main(int argc, char **argv) {
    parse_args(argc, argv); init_shm();
    auto rep = [&](const string &t) {      // one schedule, or without one every schedule of the program
        vector<rt::Dev> d; static Prog p; p = parse(t, d); setup(p); if (t.find("schedule") == string::npos) { explore(p, 6, 60000); return; } rt::track_races = false; rt::verbose = getenv("VF_TRACE"); one(p, d, 0); };
    if (!opt.replay.empty()) {
        std::ifstream f(opt.replay); std::stringstream ss; ss << f.rdbuf();
        const string why = isolated([&] { rep(ss.str()); }, 180);
        printf("%s\n", why.empty() ? "history holds" : why.c_str());
        return why.empty() ? 0 : 1;
    }
    const bool th = opt.tier == "thorough"; string bounds; static vector<Item> items = cplan(th, bounds);
    vector<Job> jobs; vector<string> samples;
    for (auto &it : items) { const string n = oneline(prog_text(it.p)); if (!opt.only.empty() && n.find(opt.only) == string::npos) continue; jobs.push_back({n, [&it] { explore(it.p, it.bound, it.cap); }}); }
    if (opt.list) { for (auto &j : jobs) puts(j.name.c_str()); return 0; }
    auto r = run_jobs(jobs, rep, 60);
    // histories that are known to fail are replayed one by one
    for (auto &k : load_known(opt.prop)) {
        string d; for (size_t i = 0; i < k.first.size(); i++) { if (k.first.compare(i, 3, " | ") == 0) { d += '\n'; i += 2; } else d += k.first[i]; }
        const string why = isolated([&] { rep(d); }, 20);
        if (!why.empty()) r.findings.push_back({d, why});
    }
    for (size_t i = 0; i < items.size() && samples.size() < 8; i += 1 + items.size() / 8) samples.push_back(oneline(prog_text(items[i].p)));
    return report(r, samples, bounds, "interleavings at the granularity of single memory accesses; atomic stores weaker than sequentially consistent may be delayed in a store buffer (x86-TSO), plain stores are not; loads and stores are not reordered otherwise (the hardware is x86); scheduling points are the atomic accesses and racy plain accesses that at least two threads touch, found by a happens-before analysis iterated to a fixed point; trial locks give up after two attempts instead of 65; slab blocks of 32 KB");
}
