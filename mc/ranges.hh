// Declared ranges [msb:lsb] for the select checks.
#pragma once
#include "engine.hh"
namespace mc {
struct RG { int m, l, tier; };
#if defined(MC_SAN) && !defined(MC_THOROUGH)
constexpr RG rgs[] = {{7, 0, 0}, {3, 10, 0}, {0, 0, 0}, {-3, 4, 0}, {63, 0, 0}, {0, 63, 0}, {40, 8, 0}, {64, 0, 0}, {66, 2, 0}, {127, 0, 0}, {5, 134, 0}};
#else
constexpr RG rgs[] = {
    {7, 0, 0}, {0, 7, 0}, {10, 3, 0}, {3, 10, 0}, {0, 0, 0}, {5, 5, 0}, {4, -3, 0}, {-3, 4, 0}, {2, 0, 0}, {1, 3, 0},
    {63, 0, 0}, {0, 63, 0}, {70, 7, 0}, {7, 70, 1}, {31, 0, 0}, {0, 31, 1}, {40, 8, 0}, {64, 0, 0}, {0, 64, 0}, {66, 2, 0}, {2, 66, 1}, {99, 0, 0}, {0, 99, 0},
    {163, 64, 0}, {127, 0, 0}, {0, 127, 1}, {133, 6, 1}, {128, 0, 0}, {134, 5, 0}, {5, 134, 1}, {191, 0, 1}, {0, 191, 0}, {-5, -70, 0}, {-70, -5, 1}, {299, 0, 0}, {0, 256, 1},
};
#endif
constexpr int n_rgs = sizeof rgs / sizeof rgs[0];
#ifdef MC_THOROUGH
constexpr int rg_max = 1;
#else
constexpr int rg_max = 0;
#endif
template <bool F, int M, int L, bool S> struct rt { using type = logic::logic<M, L, S>; };
template <int M, int L, bool S> struct rt<false, M, L, S> { using type = logic::bit<M, L, S>; };
template <bool F, int M, int L, bool S> using RT = typename rt<F, M, L, S>::type;
// f.template operator()<F,M,L,S>() for this shard's ranges
template <int I, class F> void each_range_(F &f) {
    if constexpr (I < n_rgs * 4) {
        constexpr RG g = rgs[I / 4];
        if constexpr (g.tier <= rg_max && (I / 4 * 3 + (I & 3)) % NSHARD == SHARD) f.template operator()<(bool)(I & 1), g.m, g.l, (bool)(I & 2)>();
        each_range_<I + 1>(f);
    }
}
template <class F> void each_range(F f) { each_range_<0>(f); }
inline std::string rn(bool four, int m, int l, bool s) { return std::string(four ? "logic" : "bit") + (s ? "s" : "u") + "[" + std::to_string(m) + ":" + std::to_string(l) + "]"; }
// storage position of a declared index
constexpr long pos(int m, int l, long i) { return m >= l ? i - l : l - i; }
constexpr int absd(int a, int b) { return a > b ? a - b : b - a; }
// constant index lists: all declared indices for short ranges, the word and range boundaries for long ones
template <int M, int L> struct CI {
    static constexpr int W = absd(M, L) + 1, lo = M < L ? M : L;
    static constexpr bool want(int k) { return W <= 8 || k < 2 || k >= W - 2 || k % 64 == 0 || k % 64 == 63 || k == W / 2; }
    static constexpr int count() { int n = 0; for (int k = 0; k < W; k++) n += want(k); return n; }
    static constexpr int at(int i) { int n = 0; for (int k = 0; k < W; k++) if (want(k) && n++ == i) return lo + k; return lo; }
};
template <int N, class F, int I = 0> void times(F &&f) { if constexpr (I < N) { f.template operator()<I>(); times<N, F, I + 1>(std::forward<F>(f)); } }
// run-time indices around a range: everything from a few below to a few above
inline std::vector<long> around(int m, int l, bool all) {
    long lo = std::min(m, l), hi = std::max(m, l);
    std::vector<long> o;
    for (long i = lo - 3; i <= hi + 3; i++) {
        long k = i - lo, w = hi - lo + 1;
        if (all || w <= 72 || k < 3 || k >= w - 3 || k % 64 < 2 || k % 64 >= 62 || k % 13 == 0) o.push_back(i);
    }
    for (long i : {lo - 64, lo - 65, hi + 64, hi + 65, lo - 1000, hi + 1000, -2147483648l, 2147483647l, lo + 32, lo + 256}) o.push_back(i);
    return o;
}
}  // namespace mc
