#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }   // inclusive
    bool p(double q) { return (next() >> 11) * (1.0 / 9007199254740992.0) < q; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    uint64_t logu(uint64_t hi) { if (hi < 2) return hi; int bits = 64 - __builtin_clzll(hi); uint64_t b = below(bits) + 1; uint64_t m = (b >= 63) ? hi : ((1ULL << b) < hi ? (1ULL << b) : hi); return 1 + below(m); }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ULL)); r.next(); return r.next(); }
