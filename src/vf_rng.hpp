// Takes over the filter's only source of nondeterminism (the per-insert coin that decides
// whether a key becomes a boundary key): the standard engines are replaced, before the
// library header is read, by one whose draws are scripted by the explorer.
#pragma once
#include <random>
#include <cstdint>
inline bool vf_split = false;       // next draws: true -> 0 (make a boundary), false -> max (do not)
namespace std {
struct vf_rng32 {
    typedef uint32_t result_type;
    vf_rng32() {}
    template <class T> explicit vf_rng32(const T &) {}
    void seed() {}
    template <class T> void seed(const T &) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    result_type operator()() { return vf_split ? 0u : 0xffffffffu; }
    void discard(unsigned long long) {}
};
struct vf_rng64 {
    typedef uint64_t result_type;
    vf_rng64() {}
    template <class T> explicit vf_rng64(const T &) {}
    void seed() {}
    template <class T> void seed(const T &) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~0ull; }
    result_type operator()() { return vf_split ? 0ull : ~0ull; }
    void discard(unsigned long long) {}
};
}
#define mt19937 vf_rng32
#define mt19937_64 vf_rng64
#define default_random_engine vf_rng32
#define minstd_rand vf_rng32
#define minstd_rand0 vf_rng32
#include "diva.hpp"
#undef mt19937
#undef mt19937_64
#undef default_random_engine
#undef minstd_rand
#undef minstd_rand0
