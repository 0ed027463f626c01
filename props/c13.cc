// width and sign conversions
#include "pairs.hh"
#include "ranges.hh"
using namespace mc;
// the converted value in later operations: equal to a directly written vector of the target type
template <class T> void later(const T &got, const RV &e) {
    const T w = enc<T>(e);
    constexpr bool F = T::is_4state;
    bool m;
    if constexpr (F) m = got.match(w); else m = (bool)(got == w);
    if (!m) { C.fail("does not match the same value written directly"); return; }
    if (got.to_uint64() != w.to_uint64()) { C.fail("to_uint64 differs from the same value written directly"); return; }
    if (got.str("h") != w.str("h") || got.str("d") != w.str("d")) { C.fail("text differs from the same value written directly"); return; }
    if ((bool)got != (bool)w) { C.fail("truth value differs from the same value written directly"); return; }
    constexpr int W = T::size;
    if (!dec(got.template extend<(uint64_t)W + 3>()).same(dec(w.template extend<(uint64_t)W + 3>()))) C.fail("extends differently from the same value written directly");
}
template <class T> void res(const T &got, const RV &e, const char *n) { if (C.eq(got, e, n)) later(got, e); }
template <bool F, int W1, bool S1, int W2, bool S2> void pair_() {
    using A = VT<F, W1, S1>;
    using B = VT<F, W2, S2>;
    if (!C.begin(tn(F, W1, S1) + " to " + tn(F, W2, S2))) return;
    auto as = vals(F, W1, S1, C.thorough ? 3 : W1 < 70 ? 2 : 1);
    C.states += as.size();
    RV old = ref::allx(W2, S2);
    if (!F) { old = RV(W2, S2); for (int i = 0; i < W2; i += 2) old.setbit(i, 1); }
    for (auto &a : as) {
        const A ea = enc<A>(a);
        RV e = ref::conv(a, W2, S2);
        if (C.next(&a, nullptr, nullptr, "assign")) { B b = enc<B>(old); b = ea; res(b, e, ""); }
        if constexpr (S1) {
            if (C.next(&a, nullptr, nullptr, "construct")) { B b(ea); res(b, e, ""); }
            if (C.next(&a, nullptr, nullptr, "initialise")) { B b = ea; res(b, e, ""); }
        }
        if constexpr (W1 == W2) {
            if (C.next(&a, nullptr, nullptr, "construct same width")) { B b(ea); res(b, e, ""); }
            // shifted and reversed declared ranges
            if (C.next(&a, nullptr, nullptr, "construct [+3]")) { RT<F, W2 + 2, 3, S2> b(ea); C.eq(b, e); }
            if (C.next(&a, nullptr, nullptr, "assign [0:w]")) { RT<F, 0, W2 - 1, S2> b; b = ea; C.eq(b, e); RT<F, W2 + 5, 6, S1> c; c = b; C.eq(c, ref::conv(e, W2, S1)); }
            if (C.next(&a, nullptr, nullptr, "to_signed/to_unsigned")) {
                if constexpr (S2) { auto b = ea.to_signed(); RV x = a; x.sg = true; if (C.eqt(b, x)) later(b, x); }
                else { auto b = ea.to_unsigned(); RV x = a; x.sg = false; if (C.eqt(b, x)) later(b, x); }
            }
        }
        if constexpr (S1 == S2 && (!F || W2 >= W1)) {
            if (C.next(&a, nullptr, nullptr, "extend")) { auto b = ea.template extend<(uint64_t)W2>(); if (C.eqt(b, e)) later(b, e); }
        }
        if constexpr (!F && W1 == W2) {
            using L = VT<true, W2, S2>;
            if (C.next(&a, nullptr, nullptr, "bit to logic")) { L l(ea); RV x = a; x.sg = S2; res(l, x, ""); }
            if constexpr (S1 == S2) if (C.next(&a, nullptr, nullptr, "logic = bit")) { L l; l = ea; res(l, a, ""); }
        }
        if (C.next(&a, nullptr, nullptr, "source unchanged")) { bool c; RV r = dec(ea, &c); if (!r.same(a)) C.fail("changed"); }
    }
}
struct P { template <int W1, bool S1, int W2, bool S2> void operator()() { pair_<true, W1, S1, W2, S2>(); pair_<false, W1, S1, W2, S2>(); } };
template <class K, bool F, int W, bool S> void ints() {
    using B = VT<F, W, S>;
    constexpr int KB = std::is_same_v<K, bool> ? 1 : sizeof(K) * 8;
    if (!C.begin(std::string(std::is_signed_v<K> ? "int" : "uint") + std::to_string(KB) + " to " + tn(F, W, S))) return;
    std::vector<RV> ks = sg(KB == 8 ? all2(8) : corner2(KB, C.thorough ? 3 : 2), std::is_signed_v<K>);
    for (ref::u64 v = 0; v < 40 && KB > 8; v++) { RV r(KB, std::is_signed_v<K>, v); ks.push_back(r); r = RV(KB, std::is_signed_v<K>, ~v); ks.push_back(r); }
    C.states += ks.size();
    RV old = F ? ref::allz(W, S) : RV(W, S, 5);
    for (auto &k : ks) {
        K v = (K)k.v[0];
        RV e = ref::conv(k, W, S);
        if (C.next(&k, nullptr, nullptr, "construct")) { B b(v); res(b, e, ""); }
        if (C.next(&k, nullptr, nullptr, "assign")) { B b = enc<B>(old); b = v; res(b, e, ""); }
        if constexpr (F) if (C.next(&k, nullptr, nullptr, "initialise")) { B b = v; res(b, e, ""); }
    }
}
template <bool F, int W, bool S> void one_() {
    ints<bool, F, W, S>(); ints<int8_t, F, W, S>(); ints<uint8_t, F, W, S>(); ints<int16_t, F, W, S>(); ints<uint16_t, F, W, S>();
    ints<int32_t, F, W, S>(); ints<uint32_t, F, W, S>(); ints<int64_t, F, W, S>(); ints<uint64_t, F, W, S>();
    ints<long long, F, W, S>(); ints<unsigned long long, F, W, S>();
    if (!C.begin("default " + tn(F, W, S))) return;
    if (C.next(nullptr, nullptr, nullptr, "default")) { VT<F, W, S> b; C.eq(b, F ? ref::allx(W, S) : RV(W, S)); }
    C.states++;
}
struct W1_ { template <int W, bool S> void operator()() { one_<true, W, S>(); one_<false, W, S>(); } };
void lits() {
    using namespace logic::literals;
    if (SHARD || !C.begin("literals")) return;
    auto one = [&]<class L>(L l, long v, int w) { RV e(w, true, (ref::u64)v); if (C.next(&e, nullptr, nullptr, "literal")) C.eqt(l, e); };
    one(0_logic, 0, 32); one(1_logic, 1, 32); one(2147483647_logic, 2147483647, 32); one(4294967295_logic, -1, 32); one(42_bit, 42, 32); one(4294967295_bit, -1, 32);
    one(42_logic64, 42, 64); one(18446744073709551615_logic64, -1, 64); one(9223372036854775807_bit64, 0x7fffffffffffffff, 64); one(4294967296_bit64, 4294967296, 64);
}
// every ordered pair of these widths: all native holder sizes and their boundaries against 2, 3, 4 and 5 words
#if defined(MC_SAN) && !defined(MC_THOROUGH)
constexpr int cws[] = {1, 8, 33, 64, 65, 128, 193};
#elif !defined(MC_THOROUGH)
constexpr int cws[] = {1, 3, 8, 16, 17, 33, 64, 65, 100, 128, 130, 192, 200, 300};
#else
constexpr int cws[] = {1, 2, 3, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 191, 192, 193, 256, 257, 300};
#endif
constexpr int n_cws = sizeof cws / sizeof cws[0];
template <int I> void conv_pairs() {
    if constexpr (I < n_cws * n_cws) {
        constexpr int a = cws[I / n_cws], b = cws[I % n_cws];
        if constexpr ((I / n_cws + I % n_cws) % NSHARD == SHARD) { P p; p.template operator()<a, true, b, true>(); p.template operator()<a, false, b, false>(); p.template operator()<a, true, b, false>(); p.template operator()<a, false, b, true>(); }
        conv_pairs<I + 1>();
    }
}
// every width
struct E {
    template <bool F, int W, bool S> using type = VT<F, W, S>;
    struct K { const char *n; int w; bool sg; RV (*f)(const RV &, bool &); bool from; };
    int w; bool four, sg;
    std::vector<K> k;
    template <class A, int N, bool S> void to(const char *n) {
        using B = VT<A::is_4state, N, S>;
        k.push_back({n, N, S, [](const RV &v, bool &c) { const A a = enc<A>(v); B b; b = a; return dec(b, &c); }, false});
    }
    template <class A, int N, bool S> void from(const char *n) {
        using B = VT<A::is_4state, N, S>;
        k.push_back({n, N, S, [](const RV &v, bool &c) { const B b = enc<B>(v); A a; a = b; return dec(a, &c); }, true});
    }
    template <class A> static E make() {
        E e{};
        constexpr int W = (int)A::size;
        constexpr bool S = A::is_signed;
        e.to<A, W, !S>("to the other signedness");
        e.to<A, W + 1, true>("to one bit more"); e.to<A, W + 1, false>("to one bit more");
        if constexpr (W > 1) { e.to<A, W - 1, S>("to one bit less"); e.from<A, W - 1, true>("from one bit less"); }
        e.to<A, 64, !S>("to 64 bits"); e.to<A, 200, true>("to 200 bits"); e.to<A, 130, false>("to 130 bits"); e.to<A, 9, S>("to 9 bits");
        e.from<A, 9, true>("from 9 bits"); e.from<A, 64, true>("from 64 bits"); e.from<A, 130, true>("from 130 bits"); e.from<A, 200, false>("from 200 bits");
        e.k.push_back({"from int", 32, true, [](const RV &v, bool &c) { A a; a = (int32_t)v.v[0]; return dec(a, &c); }, true});
        e.k.push_back({"from uint64_t", 64, false, [](const RV &v, bool &c) { A a(uint64_t{v.v[0]}); return dec(a, &c); }, true});
        e.k.push_back({"extend by 1", W + 1, S, [](const RV &v, bool &c) { return dec(enc<A>(v).template extend<(uint64_t)W + 1>(), &c); }, false});
        e.k.push_back({"extend by 64", W + 64, S, [](const RV &v, bool &c) { return dec(enc<A>(v).template extend<(uint64_t)W + 64>(), &c); }, false});
        return e;
    }
    void go() {
        const auto as = every_values(four, w, sg);
        for (auto &x : k) {
            const bool native = x.from && (x.n == std::string("from int") || x.n == std::string("from uint64_t"));
            for (auto &a : x.from ? every_values(four && !native, x.w, x.sg) : as) {
                if (!C.next(&a, nullptr, nullptr, x.n)) continue;
                bool clean = true;
                RV r = x.f(a, clean);
                RV e = x.from ? ref::conv(a, w, sg) : ref::conv(a, x.w, x.sg);
                e.sg = r.sg = x.from ? sg : x.sg;
                every_same(r, e, clean);
            }
        }
    }
};
void mc::run() { conv_pairs<0>(); each_width(W1_{}); lits(); every_tab<E>(); }
