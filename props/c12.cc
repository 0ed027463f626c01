// concatenation and unpacking
#include "pairs.hh"
#include "ranges.hh"
using namespace mc;
template <bool F, int M, int L, bool S> std::vector<RV> vv(int lim) {
    constexpr int W = absd(M, L) + 1;
    auto o = vals(F, W, S, W <= 2 ? 2 : 0);
    if ((int)o.size() > lim) { std::vector<RV> t; size_t st = o.size() / lim + 1; for (size_t i = 0; i < o.size(); i += st) t.push_back(o[i]); t.push_back(o.back()); o = t; }
    return o;
}
template <class T> void unchanged(const T &t, const RV &v, const char *n) { bool c; RV r = dec(t, &c); if (!r.same(v) || !c) C.fail(std::string(n) + " was changed to " + r.bin()); }
// operand tags
template <bool F_, int M_, int L_, bool S_> struct O {
    static constexpr bool F = F_, S = S_; static constexpr int M = M_, L = L_, W = absd(M_, L_) + 1;
    using T = RT<F_, M_, L_, S_>;
    static std::string n() { return rn(F, M, L, S); }
};
template <class A, class B> void two(int lim) {
    if (!C.begin("{" + A::n() + "," + B::n() + "}")) return;
    auto as = vv<A::F, A::M, A::L, A::S>(lim), bs = vv<B::F, B::M, B::L, B::S>(lim);
    C.states += as.size() + bs.size();
    for (auto &a : as) { typename A::T ea = enc<typename A::T>(a); for (auto &b : bs) {
        const auto eb = enc<typename B::T>(b);
        RV e = ref::cat(a, b);
        if (C.next(&a, &b, nullptr, "concat")) { C.eqt(ea.concat(eb), e); unchanged(ea, a, "left operand"); unchanged(eb, b, "right operand"); }
        if (C.next(&a, &b, nullptr, "free concat")) C.eqt(logic::concat(ea, eb), e);
        if constexpr (A::F == B::F) {
            auto v = enc<RT<A::F, A::W + B::W - 1, 0, false>>(e);
            typename A::T ra; typename B::T rb;
            if (C.next(&a, &b, nullptr, "unpack")) { v.unpack(ra, rb); C.eq(ra, a, "first piece"); C.eq(rb, b, "second piece"); unchanged(v, e, "unpacked vector"); }
        }
    } }
}
template <class A, class B, class D> void three(int lim) {
    if (!C.begin("{" + A::n() + "," + B::n() + "," + D::n() + "}")) return;
    auto as = vv<A::F, A::M, A::L, A::S>(lim), bs = vv<B::F, B::M, B::L, B::S>(lim), ds = vv<D::F, D::M, D::L, D::S>(lim);
    C.states += as.size() + bs.size() + ds.size();
    constexpr int W = A::W + B::W + D::W;
    for (auto &a : as) { typename A::T ea = enc<typename A::T>(a); for (auto &b : bs) { const auto eb = enc<typename B::T>(b); for (auto &d : ds) {
        const auto ed = enc<typename D::T>(d);
        RV e = ref::cat(ref::cat(a, b), d);
        if (C.next(&a, &b, &d, "concat")) C.eqt(ea.concat(eb, ed), e);
        if (C.next(&a, &b, &d, "concat concat")) C.eqt(ea.concat(eb).concat(ed), e);
        if (C.next(&a, &b, &d, "free concat")) C.eqt(logic::concat(ea, eb, ed), e);
        if constexpr (A::F && B::F && D::F) {
            // the same bits as vectors declared in either direction
            auto v = enc<RT<true, W - 1, 0, false>>(e); auto v2 = enc<RT<true, 3, W + 2, true>>(e);
            typename A::T ra; typename B::T rb; typename D::T rd;
            if (C.next(&a, &b, &d, "unpack")) { v.unpack(ra, rb, rd); C.eq(ra, a, "1"); C.eq(rb, b, "2"); C.eq(rd, d, "3"); }
            if (C.next(&a, &b, &d, "unpack ascending")) { v2.unpack(ra, rb, rd); C.eq(ra, a, "1"); C.eq(rb, b, "2"); C.eq(rd, d, "3"); }
            // four pieces, and re-concatenation
            if constexpr (A::W > 1 && A::L == 0 && A::M > 0) {
                RT<true, A::W - 2, 0, false> r1; RT<true, 0, 0, false> r2;
                if (C.next(&a, &b, &d, "unpack 4")) { v.unpack(r1, r2, rb, rd); C.eq(r1, ref::part(a, 1, A::W - 1, 0), "1"); C.eq(r2, ref::part(a, 0, 1, 0), "2"); C.eq(rb, b, "3"); C.eq(rd, d, "4"); C.eq(r1.concat(r2, rb, rd), e, "re-concatenated"); }
            }
        } else if constexpr (!A::F && !B::F && !D::F) {
            auto v = enc<RT<false, W - 1, 0, false>>(e);
            typename A::T ra; typename B::T rb; typename D::T rd;
            if (C.next(&a, &b, &d, "unpack")) { v.unpack(ra, rb, rd); C.eq(ra, a, "1"); C.eq(rb, b, "2"); C.eq(rd, d, "3"); }
        }
    } } }
}
struct P { template <int W1, bool S1, int W2, bool S2> void operator()() {
    int lim = C.thorough ? 60 : 24;
    if constexpr (W1 + W2 <= 512) {
        two<O<true, W1 - 1, 0, S1>, O<true, W2 - 1, 0, S2>>(lim);
        two<O<false, W1 - 1, 0, S1>, O<false, W2 - 1, 0, S2>>(lim);
        two<O<true, W1 - 1, 0, S1>, O<false, W2 - 1, 0, S2>>(lim);
    }
} };
template <int K, bool S1, bool S2, bool S3> void tr() {
    int lim = C.thorough ? 24 : 10;
    // total widths around 8, 16, 32, 64, 128 with pieces on both sides of the word boundary; ascending and offset ranges
    constexpr int T[][3] = {{1, 1, 1}, {1, 2, 5}, {3, 5, 1}, {4, 4, 4}, {8, 8, 1}, {1, 15, 17}, {31, 2, 31}, {32, 31, 1}, {1, 62, 1}, {33, 31, 1}, {1, 63, 64}, {64, 1, 63}, {64, 64, 1}, {5, 60, 63}, {63, 65, 2}, {100, 7, 29}, {65, 65, 65}, {2, 128, 3}};
    if constexpr (K < (int)(sizeof T / sizeof T[0])) {
        if constexpr ((K + S1 + 2 * S2 + 4 * S3) % NSHARD == SHARD) {
            constexpr int a = T[K][0], b = T[K][1], c = T[K][2];
            three<O<true, a - 1, 0, S1>, O<true, b - 1, 0, S2>, O<true, c - 1, 0, S3>>(lim);
            if constexpr (!(S1 && S3) || max_tier) {
                three<O<false, a - 1, 0, S1>, O<false, b - 1, 0, S2>, O<false, c - 1, 0, S3>>(lim);
                three<O<true, a - 1, 0, S1>, O<false, b - 1, 0, S2>, O<true, c - 1, 0, S3>>(lim);
                three<O<true, a + 2, 3, S1>, O<true, 0, b - 1, S2>, O<true, c - 2, -1, S3>>(lim);
                three<O<true, 0, a - 1, S1>, O<true, b + 6, 7, S2>, O<false, 0, c - 1, S3>>(lim);
            }
        }
        tr<K + 1, S1, S2, S3>();
    }
}
// every width
struct E {
    template <bool F, int W, bool S> using type = VT<F, W, S>;
    int w; bool four, sg;
    RV (*cat3)(const RV &, const RV &), (*pre3)(const RV &, const RV &), (*cat64)(const RV &, const RV &), (*self)(const RV &, const RV &);
    void (*unpack)(const RV &, RV &, RV &, RV &);
    template <class T> static RV got(const T &t) { bool c; RV r = dec(t, &c); if (!c) C.fail("keeps residue above its width"); return r; }
    template <class A> static E make() {
        E e{};
        constexpr int W = (int)A::size;
        constexpr bool F = A::is_4state;
        e.cat3 = [](const RV &a, const RV &b) { return got(enc<A>(a).concat(enc<VT<F, 3, true>>(b))); };
        e.pre3 = [](const RV &a, const RV &b) { return got(enc<VT<F, 3, true>>(b).concat(enc<A>(a))); };
        e.cat64 = [](const RV &a, const RV &b) { return got(enc<A>(a).concat(enc<VT<F, 64, false>>(b))); };
        e.self = [](const RV &a, const RV &) { if constexpr (W <= 320) { A x = enc<A>(a); return got(x.concat(x)); } else return a; };
        e.unpack = [](const RV &a, RV &h, RV &l, RV &back) {
            if constexpr (W > 1) {
                VT<F, W - W / 2, false> p; VT<F, W / 2, true> q;
                enc<A>(a).unpack(p, q);
                h = got(p); l = got(q); back = got(p.concat(q));
            }
        };
        return e;
    }
    void go() {
        std::vector<RV> b3 = {RV(3, true, 5), RV(3, true, 0), RV(3, true, 7)}, b64 = {RV(64, false, ~0ull), RV(64, false, 0), RV(64, false, 0x8000000000000001ull)};
        if (four) { RV r(3, true, 1); r.setbit(1, 2); r.setbit(2, 3); b3.push_back(r); RV k(64, false, 1); k.setbit(63, 2); k.setbit(62, 3); b64.push_back(k); }
        for (auto &a : every_values(four, w, sg)) {
            auto judge = [&](const RV &r, const RV &e) { C.outcome(r.hash()); if (!r.same(e)) C.fail("got " + r.bin() + " expected " + e.bin()); };
            for (auto &b : b3) {
                if (C.next(&a, &b, nullptr, "concat")) judge(cat3(a, b), ref::cat(a, b));
                if (C.next(&b, &a, nullptr, "concat")) judge(pre3(a, b), ref::cat(b, a));
            }
            for (auto &b : b64) if (C.next(&a, &b, nullptr, "concat")) judge(cat64(a, b), ref::cat(a, b));
            if (w <= 320 && C.next(&a, &a, nullptr, "concat with itself")) judge(self(a, a), ref::cat(a, a));
            if (w > 1 && C.next(&a, nullptr, nullptr, "unpack")) { RV h, l, k; unpack(a, h, l, k); judge(h, ref::part(a, w / 2, w - w / 2, 0)); judge(l, ref::part(a, 0, w / 2, 0)); judge(k, a); }
        }
    }
};
void mc::run() {
    each_pair(P{});
#if defined(MC_SAN) && !defined(MC_THOROUGH)
    tr<0, false, true, true>();
    return;
#endif
    tr<0, false, false, false>(); tr<0, true, false, false>(); tr<0, false, true, false>(); tr<0, false, false, true>(); tr<0, true, true, true>();
    every_tab<E>();
}
