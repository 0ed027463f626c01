#include "pairs.hh"
using namespace mc;
template <bool F, int W1, bool S1, int W2, bool S2> void pair_() {
    using A = VT<F, W1, S1>;
    using B = VT<F, W2, S2>;
    std::string g = pn(F, {W1, S1, W2, S2});
    int lv = C.thorough ? (W1 + W2 < 140 ? 2 : 1) : (W1 == W2 && W1 < 70 ? 1 : 0);
    auto as = vals(F, W1, S1, lv), bs = vals(F, W2, S2, lv);
    if (!C.begin(g)) return;
    C.states += as.size() + bs.size();
    std::vector<B> eb;
    for (auto &b : bs) eb.push_back(enc<B>(b));
    for (auto &a : as) {
        A ea = enc<A>(a);
        for (size_t j = 0; j < bs.size(); j++) {
            const RV &b = bs[j];
            if (C.next(&a, &b, nullptr, "&")) C.eqt(ea & eb[j], ref::r_and(a, b));
            if (C.next(&a, &b, nullptr, "|")) C.eqt(ea | eb[j], ref::r_or(a, b));
            if (C.next(&a, &b, nullptr, "^")) C.eqt(ea ^ eb[j], ref::r_xor(a, b));
        }
    }
}
struct P { template <int W1, bool S1, int W2, bool S2> void operator()() { pair_<true, W1, S1, W2, S2>(); pair_<false, W1, S1, W2, S2>(); } };
template <bool F, int W, bool S> void one_() {
    using A = VT<F, W, S>;
    if (!C.begin("~" + tn(F, W, S))) return;
    auto as = vals(F, W, S, 3);
    C.states += as.size();
    for (auto &a : as) if (C.next(&a, nullptr, nullptr, "~")) C.eq(~enc<A>(a), ref::r_not(a));
}
struct W1_ { template <int W, bool S> void operator()() { one_<true, W, S>(); one_<false, W, S>(); } };
struct E {
    static constexpr int n = 4;
    static const char *const *names() { static const char *const o[] = {"&", "|", "^", "~"}; return o; }
    template <int I, class A> static auto op(const A &a, const A &b) { if constexpr (I == 0) return a & b; else if constexpr (I == 1) return a | b; else if constexpr (I == 2) return a ^ b; else return ~a; }
    static std::vector<RV> bs(const std::vector<RV> &as, bool, int, bool) { return as; }
    static void judge(int i, const RV &a, const RV &b, bool four, const RV &r, bool clean) { every_same(r, i == 0 ? ref::r_and(a, b) : i == 1 ? ref::r_or(a, b) : i == 2 ? ref::r_xor(a, b) : ref::r_not(a), clean); }
};
void mc::run() { each_width(W1_{}); each_pair(P{}); every_op<E>(); }
