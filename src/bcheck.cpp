// C14: exhaustive enumeration of arguments of the bit-array primitives against bit-by-bit definitions.
#include "engine.hpp"
using namespace vf;
using std::string; using std::vector;
#define DECL(x) extern "C" { uint32_t vf_select_##x(uint64_t, uint32_t); uint32_t vf_rank_##x(uint64_t, uint32_t); int32_t vf_low_##x(uint64_t); int32_t vf_high_##x(uint64_t); \
 void vf_set_##x(uint64_t *, uint32_t); void vf_reset_##x(uint64_t *, uint32_t); uint64_t vf_get_##x(const uint64_t *, uint32_t); \
 void vf_right_##x(uint64_t *, uint32_t, uint32_t, uint32_t); void vf_left_##x(uint64_t *, uint32_t, uint32_t, uint32_t); uint64_t vf_be64_##x(uint64_t); uint32_t vf_be32_##x(uint32_t); uint16_t vf_be16_##x(uint16_t); }
DECL(bmi2) DECL(plain)
struct V { const char *name; decltype(&vf_select_bmi2) select; decltype(&vf_rank_bmi2) rank; decltype(&vf_low_bmi2) low, high; decltype(&vf_set_bmi2) set, reset; decltype(&vf_get_bmi2) get;
           decltype(&vf_right_bmi2) right, left; decltype(&vf_be64_bmi2) be64; decltype(&vf_be32_bmi2) be32; decltype(&vf_be16_bmi2) be16; };
static const V vs[2] = {
 {"bmi2", vf_select_bmi2, vf_rank_bmi2, vf_low_bmi2, vf_high_bmi2, vf_set_bmi2, vf_reset_bmi2, vf_get_bmi2, vf_right_bmi2, vf_left_bmi2, vf_be64_bmi2, vf_be32_bmi2, vf_be16_bmi2},
 {"plain", vf_select_plain, vf_rank_plain, vf_low_plain, vf_high_plain, vf_set_plain, vf_reset_plain, vf_get_plain, vf_right_plain, vf_left_plain, vf_be64_plain, vf_be32_plain, vf_be16_plain}};

static uint64_t loc_ex = 0, loc_st = 0;
static void flush() { shm->execs += loc_ex; shm->transitions += loc_ex; shm->traces += loc_ex; shm->queries += loc_ex; shm->states += loc_st; loc_ex = loc_st = 0; }

// all single-word primitives on one word
static void word(const V &v, uint64_t w) {
    auto bad = [&](const char *f, unsigned i, long got, long want) { throw Fail{strf("%s (%s) of word %016lx at %u gives %ld, by definition %ld", f, v.name, (unsigned long) w, i, got, want)}; };
    unsigned n = 0; int low = 64, high = -1;
    for (unsigned p = 0; p < 64; p++) {
        const uint32_t r = v.rank(w, p); if (r != n) bad("bit_rank", p, r, n);
        if (w >> p & 1) { const uint32_t s = v.select(w, n); if (s != p) bad("bit_select", n, s, p); n++; if (low == 64) low = p; high = p; }
    }
    { const uint32_t r = v.rank(w, 64); if (r != n) bad("bit_rank", 64, r, n); }
    for (unsigned k = n; k < 64; k++) { const uint32_t s = v.select(w, k); if (s != 64) bad("bit_select", k, s, 64); }
    { const int l = v.low(w); if (l != low) bad("lowbit_pos", 0, l, low); const int h = v.high(w); if (h != high) bad("highbit_pos", 0, h, high); }
    uint64_t be = 0; for (int i = 0; i < 8; i++) be |= (w >> (8 * i) & 255) << (56 - 8 * i);
    if (v.be64(w) != be) bad("to_big_endian_order 64", 0, v.be64(w), be);
    if (v.be32(w) != (uint32_t) (be >> 32)) bad("to_big_endian_order 32", 0, v.be32(w), be >> 32);
    if (v.be16(w) != (uint16_t) (be >> 48)) bad("to_big_endian_order 16", 0, v.be16(w), be >> 48);
    loc_ex++; loc_st++; shm->outcomes[n / 2 > 31 ? 31 : n / 2].store(1, std::memory_order_relaxed);
}

// patterns over NB bits: position-coded (bit i of pattern j is bit j of i), their complements, constants: they tell
// for every result bit which argument bit it is a copy of
static constexpr int NW = 4, NB = NW * 64, NP = 18;
static uint64_t pat[NP][NW + 2];
static void patterns() {
    for (int j = 0; j < NP; j++) for (int i = 0; i < (NW + 2) * 64; i++) {
        bool b = j < 8 ? i >> j & 1 : j < 16 ? !(i >> (j - 8) & 1) : j == 16;
        if (b) pat[j][i / 64] |= 1ull << (i % 64);
    }
}
static bool bit(const uint64_t *a, int i) { return a[i / 64] >> (i % 64) & 1; }
// words are kept between two guard words
static void shift(const V &v, bool right, int l, int r, int s, int p) {
    uint64_t a[NW + 2], e[NW + 2], care[NW + 2]; memcpy(a, pat[p], sizeof a); memcpy(e, a, sizeof e); memset(care, 0xff, sizeof care);
    auto set = [&](int i, bool b) { i += 64; if (b) e[i / 64] |= 1ull << (i % 64); else e[i / 64] &= ~(1ull << (i % 64)); };
    uint64_t src[NW + 2]; memcpy(src, a, sizeof src);
    const int d = right ? s : -s, len = r - l + 1;
    for (int i = l; i <= r; i++) set(i + d, bit(src, i + 64));
    if (right) for (int i = l; i < l + s; i++) set(i, false); else for (int i = r - s + 1; i <= r; i++) set(i, false);
    if (s > len) {   // the gap between the old and the new place is neither: not specified
        const int g0 = right ? r + 1 : r - s + 1, g1 = right ? l + s - 1 : l - 1;
        for (int i = g0; i <= g1; i++) care[(i + 64) / 64] &= ~(1ull << ((i + 64) % 64));
    }
    (right ? v.right : v.left)(a + 1, l, r, s);
    for (int i = 0; i < NW + 2; i++) if ((a[i] ^ e[i]) & care[i]) {
        const int b = __builtin_ctzll((a[i] ^ e[i]) & care[i]) + 64 * i - 64;
        throw Fail{strf("shift_bitmap_%s (%s) of bits %d..%d by %d on pattern %d gives a wrong bit %d", right ? "right" : "left", v.name, l, r, s, p, b)};
    }
    loc_ex++;
}

static void replay(const string &t) {
    char kind[16], name[16], dir[16]; unsigned long w; int l, r, s, p;
    if (sscanf(t.c_str(), "word %15s %lx", name, &w) == 2) { word(vs[name[0] != 'b'], w); return; }
    if (sscanf(t.c_str(), "shift %15s %15s %d %d %d %d", name, dir, &l, &r, &s, &p) == 6) { shift(vs[name[0] != 'b'], dir[0] == 'r', l, r, s, p); return; }
    (void) kind;
}

int main(int argc, char **argv) {
    parse_args(argc, argv); init_shm(); patterns();
    const bool thorough = opt.tier == "thorough";
    if (!opt.replay.empty()) {
        std::ifstream f(opt.replay); std::stringstream ss; ss << f.rdbuf();
        const string why = isolated([&] { replay(ss.str()); }, 60);
        printf("%s\n", why.empty() ? "argument holds" : why.c_str()); return why.empty() ? 0 : 1;
    }
    vector<Job> jobs;
    for (int vi = 0; vi < 2; vi++) {
        const V &v = vs[vi];
        auto W = [&v](uint64_t w) { try { word(v, w); } catch (Fail &f) { announce(strf("word %s %lx", v.name, (unsigned long) w)); throw; } };
        auto beat = [&v](uint64_t w) { announce(strf("word %s %lx", v.name, (unsigned long) w)); };
        // words with up to 4 (5) set bits, and with up to 4 (5) clear bits
        for (int a = 0; a < 64; a++) jobs.push_back({strf("few bits %s %d", v.name, a), [=] {
            auto both = [&](uint64_t w) { W(w); W(~w); };
            both(0); both(1ull << a);
            for (int b = 0; b < a; b++) { beat(1ull << a | 1ull << b); both(1ull << a | 1ull << b); for (int c = 0; c < b; c++) { const uint64_t x = 1ull << a | 1ull << b | 1ull << c; both(x);
                for (int d = 0; d < c; d++) { both(x | 1ull << d); if (thorough) for (int e = 0; e < d; e++) both(x | 1ull << d | 1ull << e); } } }
            flush(); }});
        // all 16-bit (20-bit) windows at every position, surrounded by zeros, ones and alternating bits
        const int win = thorough ? 20 : 16;
        for (int p = 0; p + win <= 64; p++) for (int f = 0; f < 4; f++) jobs.push_back({strf("window %s %d %d", v.name, p, f), [=] {
            const uint64_t fill = f == 0 ? 0 : f == 1 ? ~0ull : f == 2 ? 0xAAAAAAAAAAAAAAAAull : 0x8001800180018001ull, m = ((1ull << win) - 1) << p;
            for (uint64_t x = 0; x < 1ull << win; x++) { if (!(x & 4095)) beat((fill & ~m) | x << p); W((fill & ~m) | x << p); }
            flush(); }});
        // all pairs of byte values at all pairs of byte positions
        for (int p = 0; p < 8; p++) for (int q = 0; q < p; q++) jobs.push_back({strf("bytes %s %d %d", v.name, p, q), [=] {
            for (uint64_t x = 0; x < 256; x++) { beat(x << (8 * p)); for (uint64_t y = 0; y < 256; y++) { const uint64_t w = x << (8 * p) | y << (8 * q), m = 0xffull << (8 * p) | 0xffull << (8 * q); W(w); W(w | ~m); } }
            flush(); }});
        // bit access
        jobs.push_back({strf("bit access %s", v.name), [=] {
            for (int p = 0; p < NP; p++) for (int i = 0; i < NB; i++) for (int k = 0; k < 3; k++) {
                uint64_t a[NW + 2]; memcpy(a, pat[p], sizeof a); uint64_t e[NW + 2]; memcpy(e, a, sizeof e); const int j = i + 64; beat(i);
                if (k == 0) { v.set(a + 1, i); e[j / 64] |= 1ull << (j % 64); } else if (k == 1) { v.reset(a + 1, i); e[j / 64] &= ~(1ull << (j % 64)); }
                else if ((v.get(a + 1, i) != 0) != bit(a, j) || v.get(a + 1, i) > 1) throw Fail{strf("get_bitmap_bit of bit %d on pattern %d is wrong", i, p)};
                if (memcmp(a, e, sizeof a)) throw Fail{strf("%s_bitmap_bit of bit %d on pattern %d changes the wrong bits", k ? "reset" : "set", i, p)};
                loc_ex++;
            }
            flush(); }});
        // every range and every distance inside the bitmap
        for (int dir = 0; dir < 2; dir++) for (int l = 0; l < NB; l++) jobs.push_back({strf("shift %s %d %d", v.name, dir, l), [=, &v] {
            for (int r = l - 1; r < NB; r++) {
                const int max = dir ? NB - 1 - std::max(r, l - 1) : l;
                announce(strf("shift %s %s %d %d 0 0", v.name, dir ? "right" : "left", l, r));
                for (int s = 0; s <= max; s++) for (int p = 0; p < NP; p++) {
                    try { shift(v, dir, l, r, s, p); } catch (Fail &) { announce(strf("shift %s %s %d %d %d %d", v.name, dir ? "right" : "left", l, r, s, p)); throw; }
                }
                loc_st += max + 1;
            }
            flush(); }});
    }
    if (opt.list) { for (auto &j : jobs) puts(j.name.c_str()); return 0; }
    auto r = run_jobs(jobs, replay, 30);
    return report(r, {"word bmi2 8000000000000001", "word plain ff00ff00ff00ff00", "shift bmi2 right 3 70 61 5", "shift plain left 130 190 64 12"},
        strf("every position / rank of every word with up to %d set or clear bits, every %d-bit window at every position in 4 surroundings, every pair of byte values at every pair of byte positions; every range [l,r] and every distance of a %d-bit bitmap on %d patterns that identify the origin of every result bit; with and without BMI2", thorough ? 5 : 4, thorough ? 20 : 16, NB, NP),
        "select is asked for ranks 0..63 and rank for positions 0..64; ranges and destinations stay inside the bitmap; a range of no bits is l = r + 1");
}
