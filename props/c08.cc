// relational and equality operators
#include "pairs.hh"
using namespace mc;
template <int W1, bool S1, int W2, bool S2> void near_(std::vector<RV> &as, std::vector<RV> &bs) {
    // values that agree on the shared low part and differ only above it, and neighbours
    std::set<RV> sa(as.begin(), as.end()), sb(bs.begin(), bs.end());
    size_t na = as.size(), nb = bs.size();
    for (size_t i = 0; i < nb; i++) { RV r = ref::resize(bs[i], W1, false, S1); push(as, sa, r); if (W1 > W2) { r = ref::resize(bs[i], W1, true, S1); push(as, sa, r); r.setbit(W1 - 1, !(r.bit(W1 - 1) & 1)); push(as, sa, r); } }
    for (size_t i = 0; i < na; i++) { RV r = ref::resize(as[i], W2, false, S2); push(bs, sb, r); if (W2 > W1) { r = ref::resize(as[i], W2, true, S2); push(bs, sb, r); r.setbit(W2 - 1, !(r.bit(W2 - 1) & 1)); push(bs, sb, r); } }
}
template <bool F1, bool F2, int W1, bool S1, int W2, bool S2> void pair_() {
    using A = VT<F1, W1, S1>;
    using B = VT<F2, W2, S2>;
    if (!C.begin(tn(F1, W1, S1) + "," + tn(F2, W2, S2))) return;
    int lv = C.thorough ? (W1 + W2 < 200 ? 2 : 1) : W1 + W2 < 70 ? 1 : 0;
    if (F1 != F2 && !C.thorough) lv = 0;
    auto as = vals(false, W1, S1, lv), bs = vals(false, W2, S2, lv);
    near_<W1, S1, W2, S2>(as, bs);
    if (F1) for (auto &r : sg(corner4x(W1, 0), S1)) as.push_back(r);
    if (F2) for (auto &r : sg(corner4x(W2, 0), S2)) bs.push_back(r);
    C.states += as.size() + bs.size();
    std::vector<B> eb;
    for (auto &b : bs) eb.push_back(enc<B>(b));
    auto judge = [&](const RV &a, const A &ea, const RV &b, const B &eb) {
            bool kn = a.known() && b.known();
            int c = kn ? ref::cmp(a, b) : 0;
            if constexpr (F1) {
#define OP(o) if (C.next(&a, &b, nullptr, #o)) C.eq(ea o eb, ref::onebit(kn ? (c o 0) : 2));
                OP(==) OP(!=) OP(<) OP(>) OP(<=) OP(>=)
#undef OP
            } else if constexpr (!F2) {
#define OP(o) if (C.next(&a, &b, nullptr, #o)) C.eqb(ea o eb, c o 0);
                OP(==) OP(!=) OP(<) OP(>) OP(<=) OP(>=)
#undef OP
            } else {
#define OP(o) if (C.next(&a, &b, nullptr, #o)) C.eqb(ea o eb, kn && (c o 0));
                OP(<) OP(>) OP(<=) OP(>=)
#undef OP
            }
    };
    for (auto &a : as) {
        const A ea = enc<A>(a);
        for (size_t j = 0; j < bs.size(); j++) judge(a, ea, bs[j], eb[j]);
    }
    for (auto &[a, b] : above(W1, S1, W2, S2)) judge(a, enc<A>(a), b, enc<B>(b));
}
struct P {
    template <int W1, bool S1, int W2, bool S2> void operator()() {
        pair_<true, true, W1, S1, W2, S2>();
        pair_<false, false, W1, S1, W2, S2>();
        if (max_tier || ((W1 + W2) % 3 == 0) || W1 < 5) {
            pair_<true, false, W1, S1, W2, S2>();
            pair_<false, true, W1, S1, W2, S2>();
        }
    }
};
struct E {
    static RV expect(int i, const RV &a, const RV &b) {
        if (!a.known() || !b.known()) return ref::onebit(2);
        const int c = ref::cmp(a, b);
        const bool o[] = {c == 0, c != 0, c < 0, c > 0, c <= 0, c >= 0};
        return ref::onebit(o[i]);
    }
    static constexpr int n = 6;
    static const char *const *names() { static const char *const o[] = {"==", "!=", "<", ">", "<=", ">="}; return o; }
    template <int I, class A> static auto op(const A &a, const A &b) { if constexpr (I == 0) return a == b; else if constexpr (I == 1) return a != b; else if constexpr (I == 2) return a < b; else if constexpr (I == 3) return a > b; else if constexpr (I == 4) return a <= b; else return a >= b; }
    static std::vector<RV> bs(const std::vector<RV> &as, bool, int, bool) { return as; }
    static void judge(int i, const RV &a, const RV &b, bool four, const RV &r, bool clean) { (void)four; every_same(r, expect(i, a, b), clean); }
};
void mc::run() { each_pair(P{}); every_op<E>(); }
