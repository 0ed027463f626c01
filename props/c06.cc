// logical shifts
#include "pairs.hh"
using namespace mc;
template <int W> std::vector<RV> amounts(int w1, bool s, bool four) {
    std::vector<RV> o; std::set<RV> seen;
    if (W <= 9) { o = all2(W); }
    else {
        for (int i = 0; i <= w1 + 3; i++) if (C.thorough || w1 <= 64 || i <= 3 || i >= w1 - 2 || i % 64 < 2 || i % 64 >= 62 || i % 17 == 0) push(o, seen, RV(W, false, i));
        for (auto &r : corner2(W, 0)) push(o, seen, r);
        for (int p : edges(W, 1)) for (ref::u64 k : {0, 1, 3}) { RV r(W, false, k); r.setbit(p, 1); push(o, seen, r); }
    }
    if (four) for (auto &r : corner4x(W, 0)) o.push_back(r);
    return sg(o, s);
}
template <bool F, int W1, bool S1, int W2, bool S2> void pair_() {
    using A = VT<F, W1, S1>;
    using B = VT<F, W2, S2>;
    if (!C.begin(pn(F, {W1, S1, W2, S2}))) return;
    int lv = C.thorough ? 2 : W1 + W2 < 70 ? 1 : 0;
    auto as = vals(F, W1, S1, lv);
    auto bs = amounts<W2>(W1, S2, F);
    C.states += as.size() + bs.size();
    std::vector<B> eb;
    for (auto &b : bs) eb.push_back(enc<B>(b));
    for (auto &a : as) {
        const A ea = enc<A>(a);
        for (size_t j = 0; j < bs.size(); j++) {
            const RV &b = bs[j];
#ifdef ARITH
            if (C.next(&a, &b, nullptr, "ashr")) {
                auto r = ea.ashr(eb[j]);
                RV e = ref::shift(a, b, 'a');
                bool kf = false;
                // known finding: a big negative number loses the bit its sign bit moves to
                if (W1 > 64 && S1 && a.known() && b.known() && a.msb() && ref::amount(b) < (ref::u64)W1 && C.kfon.count("big-ashr-sign")) {
                    RV k = e; k.setbit(W1 - 1 - (long)ref::amount(b), 0);
                    bool clean; RV g = dec(r, &clean);
                    if (clean && g.same(k) && decltype(r)::is_signed == e.sg) { C.known("big-ashr-sign", "got " + g.bin()); kf = true; }
                }
                if (!kf) C.eqt(r, e);
            }
            if (C.next(&a, &b, nullptr, "ashl")) C.eqt(ea.ashl(eb[j]), ref::shift(a, b, '<'));
#else
            if (C.next(&a, &b, nullptr, "<<")) C.eqt(ea << eb[j], ref::shift(a, b, '<'));
            if (C.next(&a, &b, nullptr, ">>")) C.eqt(ea >> eb[j], ref::shift(a, b, '>'));
#endif
        }
    }
}
struct P { template <int W1, bool S1, int W2, bool S2> void operator()() { pair_<true, W1, S1, W2, S2>(); pair_<false, W1, S1, W2, S2>(); } };
struct E {
    static constexpr int n = 2;
#ifdef ARITH
    static const char *const *names() { static const char *const o[] = {"ashr", "ashl"}; return o; }
    template <int I, class A> static auto op(const A &a, const A &b) { if constexpr (I == 0) return a.ashr(b); else return a.ashl(b); }
#else
    static const char *const *names() { static const char *const o[] = {"<<", ">>"}; return o; }
    template <int I, class A> static auto op(const A &a, const A &b) { if constexpr (I == 0) return a << b; else return a >> b; }
#endif
    // every amount up to the width and just above it
    static std::vector<RV> bs(const std::vector<RV> &, bool four, int w, bool sg) {
        std::vector<RV> o;
        std::set<RV> seen;
        auto put = [&](RV r) { r.sg = sg; r.trim(); if (seen.insert(r).second) o.push_back(r); };
        for (int i = 0; i <= w + 1; i++) put(RV(w, false, i));
        put(ref::allx(w));
        for (auto &r : every_values(four, w, sg)) put(r);
        if (!four) std::erase_if(o, [](auto &r) { return !r.known(); });
        return o;
    }
    static void judge(int i, const RV &a, const RV &b, bool, const RV &r, bool clean) {
#ifdef ARITH
        const RV e = ref::shift(a, b, i == 0 ? 'a' : '<');
        // known finding: a big negative number loses the bit its sign bit moves to
        if (i == 0 && a.w > 64 && a.sg && a.known() && b.known() && a.msb() && ref::amount(b) < (ref::u64)a.w && C.kfon.count("big-ashr-sign")) {
            RV k = e; k.setbit(a.w - 1 - (long)ref::amount(b), 0);
            if (clean && r.same(k) && r.sg == e.sg) { C.known("big-ashr-sign", "got " + r.bin()); return; }
        }
        every_same(r, e, clean);
#else
        every_same(r, ref::shift(a, b, i == 0 ? '<' : '>'), clean);
#endif
    }
};
void mc::run() { each_pair(P{}); every_op<E>(); }
