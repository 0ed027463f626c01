// reductions, logical not, truth value
#include "pairs.hh"
using namespace mc;
template <bool F, int W, bool S> void one_() {
    using A = VT<F, W, S>;
    if (!C.begin(tn(F, W, S))) return;
    auto as = vals(F, W, S, 3);
    if (F && W <= (C.thorough ? 7 : 6)) as = sg(all4(W), S);
    if (!F && W <= 16) as = sg(all2(W), S);
    // every position of a single deciding bit below / above every position of a single unknown one
    if (W > 6 && W <= (C.thorough ? 400 : 140)) {
        for (int p = 0; p < W; p++) {
            for (int fill = 0; fill < 2; fill++) {
                RV r(W, S); for (int i = 0; i < W; i++) r.setbit(i, fill);
                r.setbit(p, !fill); as.push_back(r);
                if (F) for (int q : edges(W, 1)) if (q != p) for (int t = 2; t < 4; t++) { RV k = r; k.setbit(q, t); as.push_back(k); }
            }
        }
    }
    C.states += as.size();
    for (auto &a : as) {
        const A e = enc<A>(a);
        int ra = ref::red_and(a), ro = ref::red_or(a), rx = ref::red_xor(a);
        bool any1 = false; for (int i = 0; i < W; i++) any1 |= a.bit(i) == 1;
        if constexpr (F) {
            if (C.next(&a, nullptr, nullptr, "r_and")) C.eq(e.r_and(), ref::onebit(ra));
            if (C.next(&a, nullptr, nullptr, "r_nand")) C.eq(e.r_nand(), ref::onebit(ref::t_not(ra)));
            if (C.next(&a, nullptr, nullptr, "r_or")) C.eq(e.r_or(), ref::onebit(ro));
            if (C.next(&a, nullptr, nullptr, "r_nor")) C.eq(e.r_nor(), ref::onebit(ref::t_not(ro)));
            if (C.next(&a, nullptr, nullptr, "r_xor")) C.eq(e.r_xor(), ref::onebit(rx));
            if (C.next(&a, nullptr, nullptr, "r_xnor")) C.eq(e.r_xnor(), ref::onebit(ref::t_not(rx)));
            if (C.next(&a, nullptr, nullptr, "!")) C.eq(!e, ref::onebit(a.known() ? !any1 : 2));
        } else {
            if (C.next(&a, nullptr, nullptr, "r_and")) C.eqb(e.r_and(), ra);
            if (C.next(&a, nullptr, nullptr, "r_nand")) C.eqb(e.r_nand(), !ra);
            if (C.next(&a, nullptr, nullptr, "r_or")) C.eqb(e.r_or(), ro);
            if (C.next(&a, nullptr, nullptr, "r_nor")) C.eqb(e.r_nor(), !ro);
            if (C.next(&a, nullptr, nullptr, "r_xor")) C.eqb(e.r_xor(), rx);
            if (C.next(&a, nullptr, nullptr, "r_xnor")) C.eqb(e.r_xnor(), !rx);
            if (C.next(&a, nullptr, nullptr, "!")) C.eqb(!e, !any1);
            if (C.next(&a, nullptr, nullptr, "any_set")) C.eqb(e.any_set(), any1);
            if (C.next(&a, nullptr, nullptr, "all_set")) C.eqb(e.all_set(), ra);
            int n = 0; for (int i = 0; i < W; i++) n += a.bit(i) == 1;
            if (C.next(&a, nullptr, nullptr, "popcount")) C.equ(e.popcount(), n);
        }
        if (C.next(&a, nullptr, nullptr, "bool")) C.eqb(static_cast<bool>(e), a.known() && any1);
        if (C.next(&a, nullptr, nullptr, "unchanged")) C.eq(e, a);
    }
}
struct W1_ { template <int W, bool S> void operator()() { one_<true, W, S>(); one_<false, W, S>(); } };
struct E {
    static constexpr int n = 8;
    static const char *const *names() { static const char *const o[] = {"r_and", "r_nand", "r_or", "r_nor", "r_xor", "r_xnor", "!", "bool"}; return o; }
    template <int I, class A> static auto op(const A &, const A &a) {
        if constexpr (I == 0) return a.r_and(); else if constexpr (I == 1) return a.r_nand(); else if constexpr (I == 2) return a.r_or(); else if constexpr (I == 3) return a.r_nor();
        else if constexpr (I == 4) return a.r_xor(); else if constexpr (I == 5) return a.r_xnor(); else if constexpr (I == 6) return !a; else return static_cast<bool>(a);
    }
    static std::vector<RV> as(bool, int w, bool sg) { return {RV(w, sg)}; }
    // a single deciding bit at every position, alone and with one unknown bit
    static std::vector<RV> bs(const std::vector<RV> &, bool four, int w, bool sg_) {
        std::vector<RV> o = every_values(four, w, sg_);
        for (int p = 0; p < w; p++) for (int fill = 0; fill < 2; fill++) {
            RV r(w, sg_); for (int i = 0; i < w; i++) r.setbit(i, fill);
            r.setbit(p, !fill); o.push_back(r);
            if (four) for (int q : {0, w / 2, w - 1}) if (q != p) { RV k = r; k.setbit(q, 2 + p % 2); o.push_back(k); }
        }
        return o;
    }
    static void judge(int i, const RV &, const RV &a, bool, const RV &r, bool clean) {
        bool any1 = false; for (int k = 0; k < a.w; k++) any1 |= a.bit(k) == 1;
        const int red = i < 2 ? ref::red_and(a) : i < 4 ? ref::red_or(a) : ref::red_xor(a);
        every_same(r, ref::onebit(i == 7 ? a.known() && any1 : i == 6 ? (a.known() ? !any1 : 2) : i % 2 ? ref::t_not(red) : red), clean);
    }
};
void mc::run() { each_width(W1_{}); every_op<E>(); }
