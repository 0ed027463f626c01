// case equality
#include "pairs.hh"
using namespace mc;
template <bool F1, bool F2, int W1, bool S1, int W2, bool S2> void pair_() {
    using A = VT<F1, W1, S1>;
    using B = VT<F2, W2, S2>;
    if (!C.begin(tn(F1, W1, S1) + "," + tn(F2, W2, S2))) return;
    int lv = C.thorough ? 2 : W1 + W2 < 70 ? 1 : 0;
    auto as = vals(F1, W1, S1, lv), bs = vals(F2, W2, S2, lv);
    // pairs that agree after extension, and pairs that differ in exactly one bit
    std::set<RV> sa(as.begin(), as.end()), sb(bs.begin(), bs.end());
    size_t na = as.size(), nb = bs.size();
    for (size_t i = 0; i < nb; i++) for (bool se : {false, true}) { RV r = ref::resize(bs[i], W1, se, S1); if (F1 || r.known()) push(as, sa, r); }
    for (size_t i = 0; i < na; i++) for (bool se : {false, true}) { RV r = ref::resize(as[i], W2, se, S2); if (F2 || r.known()) push(bs, sb, r); }
    C.states += as.size() + bs.size();
    std::vector<B> eb;
    for (auto &b : bs) eb.push_back(enc<B>(b));
    for (auto &a : as) {
        const A ea = enc<A>(a);
        auto one = [&](const RV &b, const B &e) {
            bool x = ref::case_eq(a, b);
            if (C.next(&a, &b, nullptr, "match")) C.eqb(ea.match(e), x);
            if (C.next(&a, &b, nullptr, "nmatch")) C.eqb(ea.nmatch(e), !x);
        };
        for (size_t j = 0; j < bs.size(); j++) one(bs[j], eb[j]);
        // one-bit neighbours of the converted value
        RV base = ref::resize(a, W2, S1, S2);
        if (!F2 && !base.known()) continue;
        for (int p : edges(W2, C.thorough ? 3 : 1)) for (int t = 0; t < (F2 ? 4 : 2); t++) { RV r = base; r.setbit(p, t); one(r, enc<B>(r)); }
    }
    for (auto &[a, b] : above(W1, S1, W2, S2)) {
        const bool x = ref::case_eq(a, b);
        const A ea = enc<A>(a);
        const B e = enc<B>(b);
        if (C.next(&a, &b, nullptr, "match")) C.eqb(ea.match(e), x);
        if (C.next(&a, &b, nullptr, "nmatch")) C.eqb(ea.nmatch(e), !x);
    }
    // equivalence relation on one type: transitivity follows from agreement with the model on all pairs
}
struct P {
    template <int W1, bool S1, int W2, bool S2> void operator()() {
        pair_<true, true, W1, S1, W2, S2>();
        pair_<false, false, W1, S1, W2, S2>();
        if (max_tier || (W1 + W2) % 2) pair_<true, false, W1, S1, W2, S2>();
    }
};
struct E {
    static constexpr int n = 2;
    static const char *const *names() { static const char *const o[] = {"match", "nmatch"}; return o; }
    template <int I, class A> static auto op(const A &a, const A &b) { if constexpr (I == 0) return a.match(b); else return a.nmatch(b); }
    static std::vector<RV> bs(const std::vector<RV> &as, bool, int, bool) { return as; }
    static void judge(int i, const RV &a, const RV &b, bool four, const RV &r, bool clean) { every_same(r, ref::onebit(ref::case_eq(a, b) != (i == 1)), clean); }
};
void mc::run() { each_pair(P{}); every_op<E>(); }
