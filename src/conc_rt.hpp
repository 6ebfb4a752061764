// A controlled scheduler for the index's C code. Threads are fibers of one process; the code is compiled
// with thread-sanitizer instrumentation and this file provides the call-backs, so every memory access and
// every atomic operation of the code under test passes through here. All its memory comes from an arena at
// a fixed address, which is put back to a snapshot before every execution: executions are deterministic.
#pragma once
#include "engine.hpp"
#include <cstdlib>
#include <cstdint>
#include <cerrno>
#include <sys/mman.h>

namespace rt {
typedef uintptr_t ad;
static constexpr ad BASE = 0x100000000000ull;
static constexpr size_t MAIN = 10u << 20, PER = 2u << 20, NT = 4, SIZE = MAIN + NT * PER, PG = 4096;
static constexpr size_t STACK = 256u << 10;

struct VC { uint32_t c[NT]; };
struct Shadow { uint32_t gen; uint32_t w; uint8_t wt; uint32_t r[NT]; uint32_t sgen; VC s; };
struct Pend { ad a; unsigned n; unsigned __int128 v; VC c; };
struct Spin { ad pc, a; uint64_t v; unsigned n; };
struct Fiber { void *sp; char *stack; bool done, started; uint64_t idx; VC c; std::vector<Pend> sb; Spin spin[32]; unsigned nspin; };
struct Dev { int t; uint64_t idx; int to; bool delay; };      // at access `idx` of thread t: switch to `to`
struct Alt { Dev d; int cost; };

inline uint8_t *freed = nullptr;         // per 16 bytes: 1 live, 2 released
inline uint32_t *blksz = nullptr;        // per 16 bytes: size of the block that starts here
inline Shadow *sh = nullptr;             // per 8 bytes
inline uint8_t *conf = nullptr, *confnew = nullptr;   // per 8 bytes: scheduling points
inline uint8_t *amask = nullptr, *wmask = nullptr;    // per 8 bytes: threads that accessed / wrote atomically
inline uint8_t *dirty = nullptr; inline std::vector<uint32_t> dirtyl;
inline size_t bump[NT + 1];              // allocation marks: threads 0..NT-1, then the main context
inline size_t mark[NT + 1];
inline std::vector<char> snap; inline size_t snapn = 0;
inline std::vector<std::pair<uint32_t, uint8_t>> flog; inline bool logging = false;
inline uint32_t gen = 0; inline bool grew = false; inline std::vector<uint32_t> touched;
inline bool track_races = true, tso = true;

inline int cur = -1, nth = 0; inline Fiber fb[NT]; inline void *main_sp;
inline std::vector<Dev> devs; inline size_t dpos; inline std::vector<Alt> alts; inline int preempts, bound;
inline uint64_t yields, steps, points, tick; inline bool failed; inline std::string why;
inline void (*body)(int);
inline uint64_t nswitch;
inline bool verbose = false, post = false;

extern "C" void vf_switch(void **save, void *to);
asm(".text\n.globl vf_switch\n.type vf_switch,@function\nvf_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size vf_switch,.-vf_switch\n");

inline bool in(ad a) { return a - BASE < SIZE; }
template <class T> T *zmap(size_t n) { void *p = mmap(0, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); return (T *) p; }
inline void boot() {
    if (freed) return;
    if (mmap((void *) BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *) BASE) abort();
    freed = zmap<uint8_t>(SIZE / 16); blksz = zmap<uint32_t>(SIZE / 16); sh = zmap<Shadow>(SIZE / 8);
    conf = zmap<uint8_t>(SIZE / 8); confnew = zmap<uint8_t>(SIZE / 8); amask = zmap<uint8_t>(SIZE / 8); wmask = zmap<uint8_t>(SIZE / 8);
    dirty = zmap<uint8_t>(SIZE / PG);
    for (size_t i = 0; i < NT; i++) bump[i] = MAIN + i * PER;
    bump[NT] = 0;
}
inline void setfreed(size_t g, uint8_t v) { if (logging) flog.push_back({(uint32_t) g, freed[g]}); freed[g] = v; }
inline void mkdirty(ad a, size_t n) { for (size_t p = (a - BASE) / PG, e = (a - BASE + n - 1) / PG; p <= e; p++) if (!dirty[p]) { dirty[p] = 1; dirtyl.push_back(p); } }
inline void *alloc(size_t n, size_t al) {
    boot();
    size_t &b = bump[cur < 0 ? NT : cur]; const size_t lim = cur < 0 ? MAIN : MAIN + (cur + 1) * PER;
    size_t p = (b + 16 + al - 1) / al * al;                  // 16 bytes of gap between blocks
    const size_t r = (n + 15) / 16 * 16 + (n == 0 ? 16 : 0);
    if (p + r > lim) return nullptr;
    b = p + r;
    for (size_t g = p / 16; g < (p + r) / 16; g++) setfreed(g, 1);
    blksz[p / 16] = r;
    return (void *) (BASE + p);
}
[[noreturn]] inline void fail(const std::string &w) {
    if (cur < 0) throw vf::Fail{w};
    failed = true; why = w; void *dummy; cur = -1; vf_switch(&dummy, main_sp); __builtin_unreachable();
}
inline void plain(ad a, unsigned n, bool wr);
inline void release(void *q) {
    if (!q) return;
    ad a = (ad) q; if (!in(a)) { ::free(q); return; }
    const size_t g = (a - BASE) / 16;
    if (freed[g] == 2) fail("releases memory twice");
    if (freed[g] != 1 || !blksz[g]) fail("releases memory that was not allocated");
    if (cur >= 0 && !post) { plain(a, blksz[g], true); if (freed[g] == 2) fail("releases memory twice"); }      // conflicts with every use of the memory
    for (size_t i = g; i < g + blksz[g] / 16; i++) setfreed(i, 2);
}

// ---- scheduling -------------------------------------------------------------------------------
inline void raw_store(ad a, unsigned n, unsigned __int128 v) { memcpy((void *) a, &v, n); if (in(a)) mkdirty(a, n); }
inline void flush(Fiber &f) {
    for (auto &p : f.sb) { raw_store(p.a, p.n, p.v); if (in(p.a)) { auto &s = sh[(p.a - BASE) / 8]; s.sgen = gen; s.s = p.c; } }
    f.sb.clear();
}
inline void go(int to) {
    const int from = cur; Fiber &g = fb[to]; cur = to; g.nspin = 0; nswitch++;
    if (verbose) fprintf(stderr, "  T%d@%lu -> T%d\n", from, from < 0 ? 0ul : (unsigned long) fb[from].idx, to);
    vf_switch(from < 0 ? &main_sp : &fb[from].sp, g.sp);
}
// a decision of thread t (its access idx): forced (it cannot go on or is done) or optional (a preemption)
inline void decide(int t, uint64_t idx, bool forced) {
    points++;
    int run[NT], n = 0;
    for (int i = 1; i <= nth; i++) { const int u = (t < 0 ? i - 1 : (t + i) % nth); if (u != t && !fb[u].done) run[n++] = u; }
    if (!n) { if (forced && t >= 0 && fb[t].done) { cur = -1; void *d; vf_switch(&d, main_sp); } return; }
    if (dpos < devs.size() && devs[dpos].t == t && devs[dpos].idx == idx) {
        const Dev d = devs[dpos++];
        bool ok = false; for (int i = 0; i < n; i++) ok |= run[i] == d.to;
        if (!ok) { if (!forced) return; go(run[0]); return; }
        if (t >= 0 && !d.delay) flush(fb[t]);
        if (!forced) preempts++;
        go(d.to); return;
    }
    const bool open = dpos == devs.size();
    if (forced) {
        if (open) for (int i = 1; i < n; i++) alts.push_back({{t, idx, run[i], false}, 0});
        if (t >= 0) flush(fb[t]);
        go(run[0]); return;
    }
    if (open && preempts < bound) for (int i = 0; i < n; i++) {
        alts.push_back({{t, idx, run[i], false}, 1});
        if (!fb[t].sb.empty()) alts.push_back({{t, idx, run[i], true}, 1});
    }
}
inline uint64_t max_yields = 600, max_steps = 3000000;
inline void yield_now() {
    Fiber &f = fb[cur]; f.nspin = 0;
    if (++yields > max_yields) {
        int n = 0; for (int i = 0; i < nth; i++) n += !fb[i].done;
        fail(n > 1 ? vf::strf("%d threads wait for each other for ever", n) : "an operation never finishes although no other thread is under way");
    }
    decide(cur, f.idx, true);
    f.idx++;
}
inline bool wanted(Fiber &f) { return dpos < devs.size() && devs[dpos].t == cur && devs[dpos].idx == f.idx; }
inline void still(ad a, unsigned n) { if (freed[(a - BASE) / 16] == 2 || (n && freed[(a + n - 1 - BASE) / 16] == 2)) fail("uses memory after it was released"); }
inline void arrive(ad a, unsigned n) {
    Fiber &f = fb[cur]; f.idx++;
    if (++steps > max_steps) fail("an operation does not finish");
    still(a, n);
}
inline void addconf(size_t g) { if (!conf[g] && !confnew[g]) { confnew[g] = 1; grew = true; touched.push_back(g); } }
inline void plain(ad a, unsigned n, bool wr) {
    if (!in(a)) return;
    if (wr) mkdirty(a, n ? n : 1);
    if (cur < 0) return;
    arrive(a, n);
    if (post) return;
    Fiber &f = fb[cur];
    bool pt = false;
    for (size_t g = (a - BASE) / 8, e = (a - BASE + (n ? n - 1 : 0)) / 8; g <= e; g++) pt |= conf[g];
    if (!f.sb.empty()) {
        bool fl = wr && a - BASE - (MAIN + cur * PER) >= PER;       // a store to memory that is not this thread's own: stores stay in order
        for (auto &p : f.sb) fl |= p.a < a + n && a < p.a + p.n;
        if (fl) flush(f);
    }
    if (pt || wanted(f)) { decide(cur, f.idx, false); still(a, n); }
    if (track_races) for (size_t g = (a - BASE) / 8, e = (a - BASE + (n ? n - 1 : 0)) / 8; g <= e; g++) {
        Shadow &s = sh[g];
        if (s.gen != gen) { s.gen = gen; s.w = 0; for (auto &x : s.r) x = 0; }
        Fiber &f = fb[cur];
        if (s.w && s.wt != cur && s.w > f.c.c[s.wt]) addconf(g);
        if (wr) { for (int u = 0; u < nth; u++) if (u != cur && s.r[u] > f.c.c[u]) addconf(g); s.w = f.c.c[cur]; s.wt = cur; }
        else s.r[cur] = f.c.c[cur];
        if (amask[g] & ~(1 << cur)) { if (wr || (wmask[g] & ~(1 << cur))) addconf(g); }
    }
}
// before an atomic access: spin detection and scheduling
inline void atomic_pre(ad a, unsigned n, bool wr, ad pc) {
    if (!in(a) || cur < 0) return;
    arrive(a, n);
    Fiber &f = fb[cur];
    const size_t g = (a - BASE) / 8;
    for (unsigned i = 0; i < f.nspin; i++) if (f.spin[i].pc == pc && f.spin[i].a == a && f.spin[i].n >= 4) { yield_now(); break; }
    if (post) return;
    if (conf[g] || wanted(f)) { decide(cur, fb[cur].idx, false); still(a, n); }
    const uint8_t me = 1 << cur;
    amask[g] |= me; if (wr) wmask[g] |= me;
    if ((amask[g] & ~me) && (wmask[g]) && ((wmask[g] & ~me) || wr)) addconf(g);
}
inline void seen(ad a, ad pc, uint64_t v) {          // a value read by an atomic operation
    if (!in(a) || cur < 0) return;
    Fiber &f = fb[cur];
    for (unsigned i = 0; i < f.nspin; i++) if (f.spin[i].pc == pc && f.spin[i].a == a) { if (f.spin[i].v == v) f.spin[i].n++; else { f.spin[i].v = v; f.spin[i].n = 1; } return; }
    if (f.nspin == 32) { memmove(f.spin, f.spin + 1, 31 * sizeof f.spin[0]); f.nspin--; }
    f.spin[f.nspin++] = {pc, a, v, 1};
}
inline void acq(ad a) { if (!in(a) || cur < 0) return; Shadow &s = sh[(a - BASE) / 8]; if (s.sgen == gen) for (size_t i = 0; i < NT; i++) fb[cur].c.c[i] = std::max(fb[cur].c.c[i], s.s.c[i]); }
inline void rel(ad a, bool join) {
    if (!in(a) || cur < 0) return;
    Shadow &s = sh[(a - BASE) / 8]; Fiber &f = fb[cur];
    if (s.sgen != gen || !join) { s.sgen = gen; s.s = f.c; } else for (size_t i = 0; i < NT; i++) s.s.c[i] = std::max(s.s.c[i], f.c.c[i]);
    f.c.c[cur]++;
}
template <class T> T aload(const volatile void *p, int mo, ad pc) {
    const ad a = (ad) p; T v; atomic_pre(a, sizeof(T), false, pc);
    if (cur >= 0 && !fb[cur].sb.empty()) {
        auto &sb = fb[cur].sb;
        for (size_t i = sb.size(); i-- > 0;) {
            if (sb[i].a == a && sb[i].n == sizeof(T)) { v = (T) sb[i].v; seen(a, pc, (uint64_t) v); return v; }
            if (sb[i].a < a + sizeof(T) && a < sb[i].a + sb[i].n) { flush(fb[cur]); break; }
        }
    }
    v = *(volatile T *) a; acq(a); seen(a, pc, (uint64_t) v); return v;
}
template <class T> void astore(volatile void *p, T v, int mo, ad pc) {
    const ad a = (ad) p; atomic_pre(a, sizeof(T), true, pc);
    if (tso && cur >= 0 && !post && in(a) && mo != __ATOMIC_SEQ_CST) { Fiber &f = fb[cur]; f.sb.push_back({a, sizeof(T), (unsigned __int128) v, f.c}); f.c.c[cur]++; if (f.sb.size() > 16) flush(f); return; }
    if (cur >= 0) flush(fb[cur]);
    *(volatile T *) a = v; if (in(a)) mkdirty(a, sizeof(T)); rel(a, false);
}
template <class T, class F> T armw(volatile void *p, ad pc, F fn) {
    const ad a = (ad) p; atomic_pre(a, sizeof(T), true, pc);
    if (cur >= 0) flush(fb[cur]);
    const T o = *(volatile T *) a; *(volatile T *) a = fn(o); if (in(a)) mkdirty(a, sizeof(T));
    acq(a); rel(a, true); seen(a, pc, (uint64_t) o); return o;
}
template <class T> bool acas(volatile void *p, void *e, T d, ad pc) {
    const ad a = (ad) p; atomic_pre(a, sizeof(T), true, pc);
    if (cur >= 0) flush(fb[cur]);
    const T o = *(volatile T *) a; T x; memcpy(&x, e, sizeof(T));
    acq(a); 
    if (o == x) { *(volatile T *) a = d; if (in(a)) mkdirty(a, sizeof(T)); rel(a, true); return true; }
    seen(a, pc, (uint64_t) o); memcpy(e, &o, sizeof(T)); return false;
}
inline void fence(int mo) { if (cur >= 0 && mo == __ATOMIC_SEQ_CST) flush(fb[cur]); }

// ---- executions -------------------------------------------------------------------------------
extern "C" inline void vf_fiber_main() {
    const int me = cur;
    body(me);
    Fiber &f = fb[cur]; flush(f); f.done = true; f.idx++;
    decide(me, f.idx, true);
    abort();
}
inline void take_snapshot() {
    snapn = (bump[NT] + PG - 1) / PG * PG; snap.assign((char *) BASE, (char *) BASE + snapn);
    for (size_t i = 0; i <= NT; i++) mark[i] = bump[i];
    for (auto p : dirtyl) dirty[p] = 0; dirtyl.clear();
    flog.clear(); logging = true;
}
inline void restore() {
    for (auto p : dirtyl) {
        dirty[p] = 0;
        if ((p + 1) * PG <= snapn) memcpy((char *) BASE + p * PG, snap.data() + p * PG, PG); else memset((char *) BASE + p * PG, 0, PG);
    }
    dirtyl.clear();
    for (size_t i = flog.size(); i-- > 0;) freed[flog[i].first] = flog[i].second;
    flog.clear();
    for (size_t i = 0; i <= NT; i++) bump[i] = mark[i];
}
inline void fresh_arena(size_t keep) {      // before another program: everything allocated after `keep` is gone
    logging = false; flog.clear();
    for (auto p : dirtyl) dirty[p] = 0; dirtyl.clear();
    const size_t hi = std::max(bump[NT], snapn);
    memset((char *) BASE + keep, 0, hi - keep); memset(freed + keep / 16, 0, (hi - keep) / 16 + 1);
    for (size_t i = 0; i < NT; i++) { const size_t b = MAIN + i * PER; memset((char *) BASE + b, 0, bump[i] - b); memset(freed + b / 16, 0, (bump[i] - b) / 16 + 1); bump[i] = b; }
    bump[NT] = keep; snapn = 0;
    for (auto g : touched) conf[g] = confnew[g] = 0; touched.clear();
    memset(amask, 0, hi / 8); memset(wmask, 0, hi / 8);
    for (size_t i = 0; i < NT; i++) { memset(amask + (MAIN + i * PER) / 8, 0, PER / 8); memset(wmask + (MAIN + i * PER) / 8, 0, PER / 8); }
}
inline void commit_conf() { for (auto g : touched) if (confnew[g]) { conf[g] = 1; confnew[g] = 0; } grew = false; }

// runs the threads under the given deviations; alternatives after the last deviation are left in `alts`
inline void execute(int n, void (*b)(int), const std::vector<Dev> &d, int bd) {
    restore();
    gen++; nth = n; body = b; devs = d; dpos = 0; alts.clear(); preempts = 0; bound = bd; yields = steps = tick = 0; failed = false; why.clear();
    for (int i = 0; i < n; i++) {
        Fiber &f = fb[i];
        if (!f.stack) f.stack = (char *) mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        f.done = false; f.idx = 0; f.sb.clear(); f.nspin = 0; for (auto &x : f.c.c) x = 0; f.c.c[i] = 1;
        void **s = (void **) (f.stack + STACK); *--s = nullptr; *--s = (void *) vf_fiber_main; for (int k = 0; k < 6; k++) *--s = nullptr;
        f.sp = s;
    }
    cur = -1; decide(-1, 0, true);
    cur = -1;
    for (int i = 0; i < n; i++) fb[i].sb.clear();
    if (failed) throw vf::Fail{why};
}
// after the threads: one more fiber, alone, looks at what is left (it cannot hang: waiting for ever is noticed)
inline void afterwards(void (*b)(int)) {
    const int me = NT - 1; Fiber &f = fb[me];
    if (!f.stack) f.stack = (char *) mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (auto &x : fb) x.done = true;
    f.done = false; f.sb.clear(); f.nspin = 0; yields = steps = 0; body = b; nth = NT; failed = false; devs.clear(); dpos = 0; bound = 0;
    void **s = (void **) (f.stack + STACK); *--s = nullptr; *--s = (void *) vf_fiber_main; for (int k = 0; k < 6; k++) *--s = nullptr;
    f.sp = s; post = true; cur = -1; go(me); cur = -1; post = false;
    if (failed) throw vf::Fail{why};
}
inline uint64_t state_hash() {
    uint64_t h = 1; std::vector<uint32_t> l = dirtyl; std::sort(l.begin(), l.end());
    for (auto p : l) h = vf::hash_bytes((char *) BASE + p * PG, PG, h ^ (p * 0x9E3779B97F4A7C15ull));
    return h;
}
} // namespace rt

// ---- call-backs of the instrumented code --------------------------------------------------------
#define PC ((rt::ad) __builtin_return_address(0))
extern "C" {
void __tsan_init() { rt::boot(); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { rt::plain((rt::ad) p, n, false); } void __tsan_write##n(void *p) { rt::plain((rt::ad) p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { rt::plain((rt::ad) p, n, false); } void __tsan_unaligned_write##n(void *p) { rt::plain((rt::ad) p, n, true); } \
  void __tsan_volatile_read##n(void *p) { rt::plain((rt::ad) p, n, false); } void __tsan_volatile_write##n(void *p) { rt::plain((rt::ad) p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) rt::plain((rt::ad) p, n, false); }
void __tsan_write_range(void *p, size_t n) { if (n) rt::plain((rt::ad) p, n, true); }
void __tsan_vptr_update(void **, void *) {}
#define AT(b, T) \
 T __tsan_atomic##b##_load(const volatile T *a, int mo) { return rt::aload<T>(a, mo, PC); } \
 void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { rt::astore<T>(a, v, mo, PC); } \
 T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { return rt::armw<T>(a, PC, [=](T) { return v; }); } \
 T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { return rt::armw<T>(a, PC, [=](T o) { return T(o + v); }); } \
 T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { return rt::armw<T>(a, PC, [=](T o) { return T(o - v); }); } \
 T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { return rt::armw<T>(a, PC, [=](T o) { return T(o & v); }); } \
 T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { return rt::armw<T>(a, PC, [=](T o) { return T(o | v); }); } \
 T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { return rt::armw<T>(a, PC, [=](T o) { return T(o ^ v); }); } \
 T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { return rt::armw<T>(a, PC, [=](T o) { return T(~(o & v)); }); } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { return rt::acas<T>(a, c, v, PC); } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { return rt::acas<T>(a, c, v, PC); } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { T e = c; rt::acas<T>(a, &e, v, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { rt::fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// ---- the C library as seen by the code under test -----------------------------------------------
void *vf_malloc(size_t n) { return rt::alloc(n, 16); }
void *vf_calloc(size_t a, size_t b) { void *p = rt::alloc(a * b, 16); if (p) { memset(p, 0, a * b); rt::mkdirty((rt::ad) p, a * b + !(a * b)); } return p; }
void vf_free(void *p) { rt::release(p); }
void *vf_realloc(void *q, size_t n) { void *p = rt::alloc(n, 16); if (p && q) { const size_t o = rt::blksz[((rt::ad) q - rt::BASE) / 16]; memcpy(p, q, std::min(o, n)); rt::mkdirty((rt::ad) p, n); rt::release(q); } return p; }
int vf_posix_memalign(void **r, size_t al, size_t n) { *r = rt::alloc(n, std::max<size_t>(al, 16)); return *r ? 0 : ENOMEM; }
void *vf_aligned_alloc(size_t al, size_t n) { return rt::alloc(n, std::max<size_t>(al, 16)); }
void *vf_memalign(size_t al, size_t n) { return rt::alloc(n, std::max<size_t>(al, 16)); }
void *vf_mmap(void *, size_t n, int, int fl, int, long) {
    if (fl & MAP_HUGETLB) { errno = ENOMEM; return MAP_FAILED; }
    void *p = rt::alloc(n, 4096); if (!p) { errno = ENOMEM; return MAP_FAILED; }
    memset(p, 0, n); rt::mkdirty((rt::ad) p, n); return p;
}
int vf_munmap(void *p, size_t) { rt::release(p); return 0; }
int vf_mlock(const void *, size_t) { return 0; }
void *vf_memcpy(void *d, const void *s, size_t n) { if (n) { rt::plain((rt::ad) s, n, false); rt::plain((rt::ad) d, n, true); } return memmove(d, s, n); }
void *vf_memmove(void *d, const void *s, size_t n) { if (n) { rt::plain((rt::ad) s, n, false); rt::plain((rt::ad) d, n, true); } return memmove(d, s, n); }
void *vf_memset(void *d, int c, size_t n) { if (n) rt::plain((rt::ad) d, n, true); return memset(d, c, n); }
int vf_memcmp(const void *a, const void *b, size_t n) { if (n) { rt::plain((rt::ad) a, n, false); rt::plain((rt::ad) b, n, false); } return memcmp(a, b, n); }
// insertion sort in place, element by element, so that a preemption inside sees what a sorting thread could leave
void vf_qsort_r(void *b, size_t n, size_t s, int (*cmp)(const void *, const void *, void *), void *x) {
    char *p = (char *) b; char t[256];
    for (size_t i = 1; i < n; i++) {
        rt::plain((rt::ad) (p + i * s), s, false); memcpy(t, p + i * s, s);
        size_t j = i;
        while (j > 0 && cmp(p + (j - 1) * s, t, x) > 0) { rt::plain((rt::ad) (p + j * s), s, true); memmove(p + j * s, p + (j - 1) * s, s); j--; }
        if (j != i) { rt::plain((rt::ad) (p + j * s), s, true); memcpy(p + j * s, t, s); }
    }
}
static int vf_cmp2(const void *a, const void *b, void *c) { return (*(int (**)(const void *, const void *)) c)(a, b); }
void vf_qsort(void *b, size_t n, size_t s, int (*cmp)(const void *, const void *)) { vf_qsort_r(b, n, s, vf_cmp2, &cmp); }
static int lock_try(volatile void *p, rt::ad pc) { return rt::armw<uint32_t>(p, pc, [](uint32_t) { return 1u; }) == 0; }
static int lock_get(volatile void *p, rt::ad pc) { if (rt::cur < 0) { if (*(volatile uint32_t *) p) rt::fail("a lock is still held after all operations returned"); } while (!lock_try(p, pc)) ; return 0; }
int vf_pthread_spin_init(volatile void *p, int) { rt::astore<uint32_t>(p, 0, __ATOMIC_RELEASE, PC); return 0; }
int vf_pthread_spin_lock(volatile void *p) { return lock_get(p, PC); }
int vf_pthread_spin_trylock(volatile void *p) { return lock_try(p, PC) ? 0 : EBUSY; }
int vf_pthread_spin_unlock(volatile void *p) { rt::astore<uint32_t>(p, 0, __ATOMIC_RELEASE, PC); return 0; }
int vf_pthread_mutex_init(void *p, const void *) { rt::astore<uint32_t>(p, 0, __ATOMIC_SEQ_CST, PC); return 0; }
int vf_pthread_mutex_lock(void *p) { return lock_get(p, PC); }
int vf_pthread_mutex_trylock(void *p) { return lock_try(p, PC) ? 0 : EBUSY; }
int vf_pthread_mutex_unlock(void *p) { rt::armw<uint32_t>(p, PC, [](uint32_t) { return 0u; }); return 0; }
int vf_pthread_mutex_destroy(void *) { return 0; }
int vf_sched_yield() { if (rt::cur >= 0) rt::yield_now(); return 0; }
int vf_usleep(unsigned) { if (rt::cur >= 0) rt::yield_now(); return 0; }
int vf_nanosleep(const void *, void *) { if (rt::cur >= 0) rt::yield_now(); return 0; }
}
#undef PC
