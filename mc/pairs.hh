// Width/signedness configurations shared by the binary-operator checks.
#pragma once
#include "engine.hh"
namespace mc {
// the operand-width grid; quick uses the entries marked 0, thorough all
struct WP { int a, b, tier; };
#if defined(MC_SAN) && !defined(MC_THOROUGH)
constexpr WP wps[] = {{1, 1, 0}, {8, 8, 0}, {9, 9, 0}, {32, 32, 0}, {33, 33, 0}, {63, 63, 0}, {64, 64, 0}, {65, 65, 0}, {128, 128, 0}, {129, 129, 0}, {3, 65, 0}, {64, 65, 0}, {33, 64, 0}, {63, 130, 0}, {4, 9, 0}, {65, 193, 0}};
#else
constexpr WP wps[] = {
    {1, 1, 0}, {2, 2, 0}, {3, 3, 0}, {4, 4, 0}, {5, 5, 1}, {7, 7, 0}, {8, 8, 0}, {9, 9, 0}, {12, 12, 1}, {15, 15, 1},
    {16, 16, 0}, {17, 17, 0}, {24, 24, 1}, {31, 31, 1}, {32, 32, 0}, {33, 33, 0}, {48, 48, 1}, {63, 63, 0}, {64, 64, 0},
    {65, 65, 0}, {96, 96, 1}, {100, 100, 0}, {127, 127, 0}, {128, 128, 0}, {129, 129, 0}, {160, 160, 1}, {191, 191, 1},
    {192, 192, 0}, {193, 193, 1}, {256, 256, 1}, {257, 257, 1}, {300, 300, 0},
    {1, 2, 0}, {1, 4, 1}, {2, 3, 0}, {3, 8, 0}, {4, 8, 1}, {4, 9, 0}, {7, 9, 1}, {8, 16, 0}, {5, 33, 0}, {16, 17, 1}, {16, 32, 0},
    {31, 33, 1}, {32, 64, 0}, {33, 64, 0}, {63, 64, 1}, {1, 65, 0}, {8, 100, 0}, {20, 70, 1}, {64, 65, 0}, {63, 128, 0}, {64, 192, 0}, {33, 129, 0}, {7, 193, 0}, {65, 256, 1}, {1, 257, 1},
    {65, 128, 0}, {65, 66, 1}, {100, 127, 1}, {128, 129, 0}, {100, 300, 0}, {127, 300, 1}, {192, 256, 1},
    {320, 320, 0}, {520, 100, 0}, {448, 190, 1}, {570, 3, 1},  // six words and more
};
#endif
#ifdef MC_THOROUGH
constexpr int max_tier = 1;
#else
constexpr int max_tier = 0;
#endif
constexpr int n_wps = sizeof wps / sizeof wps[0];

// calls F.template operator()<W1,S1,W2,S2>() for each pair of this shard; unequal widths both ways round
template <int I, class F> void each_pair_(F &f) {
    if constexpr (I < n_wps * 8) {
        constexpr WP p = wps[I / 8];
        constexpr bool s1 = I & 1, s2 = I & 2, swap = I & 4;
        if constexpr (p.tier <= max_tier && !(swap && p.a == p.b) && (I / 8 + (I & 7)) % NSHARD == SHARD) {
            if constexpr (swap) f.template operator()<p.b, s1, p.a, s2>();
            else f.template operator()<p.a, s1, p.b, s2>();
        }
        each_pair_<I + 1>(f);
    }
}
template <class F> void each_pair(F f) { each_pair_<0>(f); }

#if defined(MC_SAN) && !defined(MC_THOROUGH)
constexpr WP ws1[] = {{1, 0, 0}, {2, 0, 0}, {8, 0, 0}, {9, 0, 0}, {31, 0, 0}, {33, 0, 0}, {63, 0, 0}, {64, 0, 0}, {65, 0, 0}, {127, 0, 0}, {128, 0, 0}, {129, 0, 0}, {192, 0, 0}, {200, 0, 0}};
#else
constexpr WP ws1[] = {{1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {4, 0, 0}, {5, 0, 0}, {6, 0, 1}, {7, 0, 0}, {8, 0, 0}, {9, 0, 0}, {12, 0, 1}, {15, 0, 0}, {16, 0, 0}, {17, 0, 0},
    {24, 0, 1}, {31, 0, 0}, {32, 0, 0}, {33, 0, 0}, {40, 0, 1}, {48, 0, 1}, {63, 0, 0}, {64, 0, 0}, {65, 0, 0}, {66, 0, 1}, {96, 0, 0}, {100, 0, 0}, {126, 0, 1}, {127, 0, 0},
    {128, 0, 0}, {129, 0, 0}, {130, 0, 1}, {160, 0, 1}, {191, 0, 0}, {192, 0, 0}, {193, 0, 0}, {255, 0, 1}, {256, 0, 0}, {257, 0, 0}, {300, 0, 0}, {320, 0, 1}, {448, 0, 0}, {512, 0, 1}, {570, 0, 0}};
#endif
constexpr int n_ws1 = sizeof ws1 / sizeof ws1[0];
template <int I, class F> void each_width_(F &f) {
    if constexpr (I < n_ws1 * 2) {
        constexpr WP p = ws1[I / 2];
        if constexpr (p.tier <= max_tier && I % NSHARD == SHARD) f.template operator()<p.a, (bool)(I & 1)>();
        each_width_<I + 1>(f);
    }
}
template <class F> void each_width(F f) { each_width_<0>(f); }
// every width there is up to a limit, for what depends on how a width divides into digits
#ifdef MC_THOROUGH
constexpr int every_max = 520;
#elif defined(MC_SAN)
constexpr int every_max = 0;
#else
constexpr int every_max = 300;
#endif
template <int I, class F> void every_width_1(F &f) { if constexpr (I % NSHARD == SHARD) f.template operator()<I / 2 + 1, (bool)(I & 1)>(); }
template <class F, int... I> void every_width_(F &f, std::integer_sequence<int, I...>) { (every_width_1<I>(f), ...); }
template <class F> void every_width(F f) { every_width_(f, std::make_integer_sequence<int, every_max * 2>{}); }
inline std::vector<RV> every_values(bool four, int w, bool sg_) {
    std::vector<RV> o;
    std::set<RV> seen;
    auto put = [&](RV r) { r.sg = sg_; r.trim(); if (seen.insert(r).second) o.push_back(r); };
    auto ones = [&](int lo, int hi) { RV r(w, false); for (int i = std::max(lo, 0); i < hi && i < w; i++) r.setbit(i, 1); return r; };
    const int last = (w - 1) / 64 * 64;  // where the last word begins
    put(RV(w, false, 0)); put(RV(w, false, 1)); put(RV(w, false, 3)); put(ones(0, w)); put(ones(w - 1, w)); put(ones(0, w - 1)); put(ones(1, w));
    put(ones(0, last)); put(ones(last, w)); put(ones(last, last + 1)); put(ones(0, w / 2)); put(ones(63, 65)); put(ones(32, 33));
    for (u64 pat : {0xaaaaaaaaaaaaaaaaull, 0x0123456789abcdefull, 0xfedcba9876543210ull}) { RV r(w, false); for (int i = 0; i < ref::NW; i++) r.v[i] = pat; put(r); }
    const auto wp = word_pairs(w);
    for (size_t i = 0; i < wp.size() && i < 4; i++) put(wp[i]);
    if (!four) return o;
    for (size_t i = 0; i < wp.size() && i < 4; i++) { RV r(w, false, 5); if (i & 1) r = wp[i]; for (int k = 0; k < ref::NW; k++) r.x[k] = wp[i].v[k]; put(r); }
    for (int p : {0, w - 1, last, w / 2}) for (int t : {2, 3}) { RV r(w, false, 5); r.setbit(p, t); put(r); r = ones(0, w); r.setbit(p, t); put(r); }
    put(ref::allx(w)); put(ref::allz(w));
    return o;
}
// pairs of numbers of different length that agree on the words they share; the words above are boundary patterns, alone
// and together, so that what is wrongly combined out of them (added, subtracted, the last one only) shows
inline std::vector<std::pair<RV, RV>> above(int w1, bool s1, int w2, bool s2) {
    std::vector<std::pair<RV, RV>> o;
    const int ws = std::min(w1, w2), wl = std::max(w1, w2), from = (ws + 63) / 64, to = (wl + 63) / 64;
    auto put = [&](RV sh, RV lo) {
        lo.trim();
        if (w1 < w2) std::swap(sh, lo);
        lo.w = w1; lo.sg = s1; sh.w = w2; sh.sg = s2;
        o.push_back({lo, sh});
    };
    const u64 pat[] = {1, 1ull << 63, ~0ull};
    RV ones(ws, false); for (int i = 0; i < ws; i++) ones.setbit(i, 1);
    for (auto &sh : {RV(ws, false, 0), RV(ws, false, 7), ones}) for (bool ext : {false, true}) {
        const RV lo = ref::resize(sh, wl, ext, ext);
        for (int i = from; i < to; i++) for (u64 x : pat) {
            RV a = lo; a.v[i] ^= x; put(sh, a);
            for (int j = i + 1; j < to; j++) for (u64 y : pat) { RV b = a; b.v[j] ^= y; put(sh, b); }
        }
    }
    return o;
}
// the same operators on two operands of one type, at every width: a table of functions, walked by ordinary loops.
// D::op<I>(a, b) is the operation, D::names() what to call it, D::ref(I, a, b, four) the expected result,
// D::bs(a's alphabet, four, w, sg) the alphabet of the second operand
struct EveryT { int w; bool four, sg; std::vector<void (*)(const RV &, const RV &, RV &, bool &)> f; };
template <class T> void every_got(const T &t, RV &r, bool &clean) { if constexpr (std::is_same_v<T, bool>) r = ref::onebit(t); else r = dec(t, &clean); }
template <class D, class A, int I> void every_fn(const RV &a, const RV &b, RV &r, bool &clean) { every_got(D::template op<I>(enc<A>(a), enc<A>(b)), r, clean); }
template <class D> struct EveryReg {
    std::vector<EveryT> *o;
    template <class A, int... I> void put(std::integer_sequence<int, I...>, int w, bool four, bool sg) { o->push_back({w, four, sg, {every_fn<D, A, I>...}}); }
    template <int W, bool S> void operator()() {
        put<VT<true, W, S>>(std::make_integer_sequence<int, D::n>{}, W, true, S);
        put<VT<false, W, S>>(std::make_integer_sequence<int, D::n>{}, W, false, S);
    }
};
template <class D> void every_op() {
    std::vector<EveryT> ts;
    every_width(EveryReg<D>{&ts});
    for (auto &t : ts) {
        if (!C.begin("every width: " + tn(t.four, t.w, t.sg))) continue;
        std::vector<RV> as = every_values(t.four, t.w, t.sg);
        if constexpr (requires { D::as(t.four, t.w, t.sg); }) as = D::as(t.four, t.w, t.sg);
        std::vector<RV> bs = D::bs(as, t.four, t.w, t.sg);
        C.states += as.size();
        for (auto &a : as) for (auto &b : bs) for (int i = 0; i < D::n; i++) {
            if (!C.next(&a, &b, nullptr, D::names()[i])) continue;
            RV r; bool clean = true;
            t.f[i](a, b, r, clean);
            D::judge(i, a, b, t.four, r, clean);
        }
    }
}
// as above for what is not an operator: D has fields w, four, sg and table entries, D::make<A>() fills them, go() runs
template <class D> struct EveryTab {
    std::vector<D> *o;
    template <class A> void put(int w, bool four, bool sg) { D d = D::template make<A>(); d.w = w; d.four = four; d.sg = sg; o->push_back(d); }
    template <int W, bool S> void operator()() { put<typename D::template type<true, W, S>>(W, true, S); put<typename D::template type<false, W, S>>(W, false, S); }
};
template <class D> void every_tab() {
    std::vector<D> ts;
    every_width(EveryTab<D>{&ts});
    for (auto &t : ts) if (C.begin("every width: " + tn(t.four, t.w, t.sg))) { C.states++; t.go(); }
}
inline void every_same(const RV &r, const RV &e, bool clean) {
    C.outcome(r.hash());
    if (!r.same(e)) C.fail("got " + r.bin() + " expected " + e.bin());
    else if (!clean) C.fail("shows " + r.bin() + " but keeps residue above its width");
    else if (r.sg != e.sg) C.fail("result signedness");
}
// values that exercise each digit of n bits: ascending digits, the top digit partly unknown, one digit unknown, ...
inline std::vector<RV> digit_alphabet(bool four, int w, bool sg) {
    std::vector<RV> o = vals(four, w, sg, 0);
    std::set<RV> seen(o.begin(), o.end());
    auto put = [&](const RV &r) { if (seen.insert(r).second) o.push_back(r); };
    for (int n : {1, 3, 4, 8}) {
        const int top = (w - 1) / n * n;
        for (int k = 0; k < 2; k++) {
            RV r(w, sg);
            for (int at = 0, d = k * 5 + 1; at < w; at += n, d += 2 * k + 1) for (int b = 0; b < n; b++) r.setbit(at + b, (d >> b) & 1);
            put(r);
            if (!four) continue;
            for (int t : {2, 3}) for (int at : {0, top, top - n, 63 / n * n, 127 / n * n}) {
                if (at < 0 || at >= w) continue;
                RV x = r;
                for (int b = 0; b < n; b++) x.setbit(at + b, t);
                put(x);
                RV y = r; y.setbit(at, t); put(y);
                RV z = r; z.setbit(std::min(at + n, w) - 1, t); put(z);
            }
        }
    }
    return o;
}
// every number whose digits (of d bits) are all taken from the boundary patterns of a digit: what carries, borrows,
// quotient estimates and their corrections depend on
inline std::vector<RV> digit_values(int w, int d, bool sg, bool rich) {
    const u64 m = ~0ull >> (64 - d);
    std::vector<u64> pat = {0, 1, m >> 1, (m >> 1) + 1, m};
    if (rich) for (u64 k : {(u64)2, (m >> 1) + 2, m - 1}) pat.push_back(k);
    const int n = (w + d - 1) / d;
    std::vector<RV> o;
    std::set<RV> seen;
    u64 tot = 1; for (int i = 0; i < n; i++) tot *= pat.size();
    for (u64 k = 0; k < tot; k++) {
        RV r(w, sg);
        u64 t = k;
        for (int i = 0; i < n; i++, t /= pat.size()) for (int b = 0; b < d; b++) r.setbit(i * d + b, (pat[t % pat.size()] >> b) & 1);
        push(o, seen, r);
    }
    return o;
}
template <int W, int D, bool S, int I, class F> void digits_(F &f, bool rich) {
    auto vs = digit_values(W, D, S, rich);
    // the pairs are dealt out to the shards
    for (int part = 0; part < 4; part++) {
        if ((I * 4 + part) % NSHARD != SHARD) continue;
        if (!C.begin("digits of " + std::to_string(D) + " bits, " + tn(false, W, S) + " part " + std::to_string(part))) continue;
        C.states += vs.size();
        using A = VT<false, W, S>;
        std::vector<A> e;
        for (auto &v : vs) e.push_back(enc<A>(v));
        for (size_t i = part; i < vs.size(); i += 4) for (size_t j = 0; j < vs.size(); j++) f(vs[i], vs[j], e[i], e[j]);
    }
}
template <class F> void each_digits(F f) {
#ifndef MC_SAN
    digits_<128, 32, false, 0>(f, false);
    digits_<192, 64, false, 1>(f, true);
    digits_<129, 64, true, 2>(f, true);
    digits_<96, 32, true, 3>(f, true);
    digits_<64, 16, false, 4>(f, false);
#ifdef MC_THOROUGH
    digits_<256, 64, false, 5>(f, false);
    digits_<192, 64, true, 6>(f, true);
    digits_<160, 32, false, 7>(f, false);
    digits_<80, 16, false, 8>(f, false);
#endif
#endif
}
inline std::string pn(bool four, const P2 &p) { return tn(four, p.w1, p.s1) + "," + tn(four, p.w2, p.s2); }
}  // namespace mc
