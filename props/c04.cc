// multiplication
#include "pairs.hh"
using namespace mc;
template <bool F, int W1, bool S1, int W2, bool S2> void pair_() {
    using A = VT<F, W1, S1>;
    using B = VT<F, W2, S2>;
    if (!C.begin(pn(F, {W1, S1, W2, S2}))) return;
    int lv = C.thorough ? (W1 + W2 < 140 ? 3 : 2) : (W1 + W2 < 260 ? 2 : 1);
    auto as = vals(false, W1, S1, lv), bs = vals(false, W2, S2, lv);
    if (F) { for (auto &r : sg(corner4x(W1, 0), S1)) as.push_back(r); for (auto &r : sg(corner4x(W2, 0), S2)) bs.push_back(r); }
    C.states += as.size() + bs.size();
    std::vector<B> eb;
    for (auto &b : bs) eb.push_back(enc<B>(b));
    for (auto &a : as) {
        const A ea = enc<A>(a);
        for (size_t j = 0; j < bs.size(); j++) {
            const RV &b = bs[j];
            if (C.next(&a, &b, nullptr, "*")) C.eqt(ea * eb[j], ref::arith(a, b, '*', F));
        }
    }
}
struct P { template <int W1, bool S1, int W2, bool S2> void operator()() { pair_<true, W1, S1, W2, S2>(); pair_<false, W1, S1, W2, S2>(); } };
struct D { template <class A> void operator()(const RV &a, const RV &b, const A &x, const A &y) const {
    if (C.next(&a, &b, nullptr, "*")) C.eqt(x * y, ref::arith(a, b, '*', false));
} };
struct E {
    static constexpr int n = 1;
    static const char *const *names() { static const char *const o[] = {"*"}; return o; }
    template <int I, class A> static auto op(const A &a, const A &b) { return a * b; }
    static std::vector<RV> bs(const std::vector<RV> &as, bool, int, bool) { return as; }
    static void judge(int i, const RV &a, const RV &b, bool four, const RV &r, bool clean) { every_same(r, ref::arith(a, b, '*', four), clean); }
};
void mc::run() { each_pair(P{}); each_digits(D{}); every_op<E>(); }
