// whole-vector queries, fills, defaults, constants and integer literals
#include "pairs.hh"
#include "ranges.hh"
using namespace mc;
#define IF(e) if constexpr (requires { e; })  // helpers that may come and go
template <bool F, int M, int L, bool S> struct WH {
    using A = RT<F, M, L, S>;
    static constexpr int W = absd(M, L) + 1;
    template <int I> static void fixed(const A &e, const RV &v) {
        constexpr int d = M >= L ? I + L : L - I;
        C.eqb(e.template x_set<d>(), v.bit(I) == 2); C.eqb(e.template z_set<d>(), v.bit(I) == 3);
    }
    void run() {
        if (!C.begin(rn(F, M, L, S))) return;
        auto vs = vals(F, W, S, C.thorough ? 3 : 2);
        if (F && W <= 5) vs = sg(all4(W), S);
        if (!F && W <= 12) vs = sg(all2(W), S);
        C.states += vs.size();
        if (C.next(nullptr, nullptr, nullptr, "default")) { A a; C.eq(a, F ? ref::allx(W, S) : RV(W, S)); A b{}; C.eq(b, F ? ref::allx(W, S) : RV(W, S)); A *p = new A; C.eq(*p, F ? ref::allx(W, S) : RV(W, S)); delete p; }
        if constexpr (F) {
            if (C.next(nullptr, nullptr, nullptr, "constants")) { IF(A::x_()) C.eq(A::x_(), ref::onebit(2)); IF(A::one_()) C.eq(A::one_(), ref::onebit(1)); IF(A::zero_()) C.eq(A::zero_(), ref::onebit(0)); }
        } else if (C.next(nullptr, nullptr, nullptr, "constants")) IF(A::one_()) C.eq(A::one_(), ref::onebit(1));
        for (auto &v : vs) {
            const A e = enc<A>(v);
            bool any = false, all = true; int n = 0, top = -1;
            for (int i = 0; i < W; i++) { int t = v.bit(i); any |= t == 1; all &= t == 1; n += t == 1; if (t == 1) top = i; }
            if constexpr (F) {
                bool anyx = !v.known();
                if (C.next(&v, nullptr, nullptr, "is_x/is_z")) {
                    for (int i = 0; i < W; i++) { int d = M >= L ? i + L : L - i; C.eqb(e.x_set(d), v.bit(i) == 2); C.eqb(e.z_set(d), v.bit(i) == 3); }
                    for (int d : {std::min(M, L) - 1, std::max(M, L) + 1, -2147483647, 2147483647}) { C.eqb(e.x_set(d), false, "outside"); C.eqb(e.z_set(d), false, "outside"); }
                }
                if (C.next(&v, nullptr, nullptr, "unknown plane")) { IF(e.xz_mask.any_set()) C.eqb(e.xz_mask.any_set(), anyx); }
                if (C.next(&v, nullptr, nullptr, "is_x/is_z at constant indices")) { fixed<0>(e, v); fixed<W - 1>(e, v); fixed<W / 2>(e, v); if constexpr (W > 64) { fixed<63>(e, v); fixed<64>(e, v); } }
                // storing a machine integer makes every bit known
                if (C.next(&v, nullptr, nullptr, "= 0")) { A a = e; a = 0; C.eq(a, RV(W, S)); }
                if (C.next(&v, nullptr, nullptr, "= -1")) { A a = e; a = -1; RV r(W, S); for (int i = 0; i < W; i++) r.setbit(i, 1); C.eq(a, r); }
            } else {
                RV neg = ref::arith(RV(W, S), v, '-', true); neg.sg = false;
                RV ones(W, S); for (int i = 0; i < W; i++) ones.setbit(i, 1);
                if (C.next(&v, nullptr, nullptr, "any_set")) IF(e.any_set()) C.eqb(e.any_set(), any);
                if (C.next(&v, nullptr, nullptr, "all_set")) IF(e.all_set()) C.eqb(e.all_set(), all);
                if (C.next(&v, nullptr, nullptr, "popcount")) IF(e.popcount()) C.equ(e.popcount(), n);
                if (any && C.next(&v, nullptr, nullptr, "highest_bit")) IF(e.highest_bit()) C.equ(e.highest_bit(), top);
                if (C.next(&v, nullptr, nullptr, "negative")) IF(e.negative()) C.eqb(e.negative(), S && v.bit(W - 1) == 1);
                if (C.next(&v, nullptr, nullptr, "negate")) IF(A().negate()) { A a = e; const A &k = a; C.eq(k.negate(), neg); C.eq(a, v, "operand"); a.negate(); RV m = neg; m.sg = S; C.eq(a, m); a.negate(); C.eq(a, v, "twice"); }
                if (C.next(&v, nullptr, nullptr, "clear")) IF(A().clear()) { A a = e; a.clear(); C.eq(a, RV(W, S)); C.eqb(a.any_set(), false); }
                if (C.next(&v, nullptr, nullptr, "mask")) IF(A().mask()) { A a = e; a.mask(); C.eq(a, ones); C.eqb(a.all_set(), true); C.equ(a.popcount(), W); }
                if (C.next(&v, nullptr, nullptr, "mask_off")) IF(A().mask_off()) { A a = e; a.mask_off(); C.eq(a, v); }
            }
        }
    }
};
struct R { template <bool F, int M, int L, bool S> void operator()() { WH<F, M, L, S>{}.run(); } };
struct U { template <int W, bool S> void operator()() { if constexpr (W > 1) { WH<true, W - 1, 0, S>{}.run(); WH<false, W - 1, 0, S>{}.run(); } } };
// every width
struct E {
    template <bool F, int W, bool S> using type = VT<F, W, S>;
    int w; bool four, sg;
    void (*bits)(const RV &, std::string &, std::string &);
    void (*known)(const RV &, long *);
    RV (*fill)(const RV &, int, bool &);
    template <class A> static E make() {
        E e{};
        constexpr int W = (int)A::size;
        e.fill = [](const RV &v, int k, bool &c) {
            A a = enc<A>(v);
            if (k == 0) { A d; return dec(d, &c); }
            if (k == 1) { a = 0; return dec(a, &c); }
            if (k == 2) { a = -1; return dec(a, &c); }
            if constexpr (!A::is_4state) {
                if (k == 3) { IF(a.negate()) { a.negate(); return dec(a, &c); } }
                if (k == 4) { IF(a.mask()) { a.mask(); return dec(a, &c); } }
                if (k == 5) { IF(a.mask_off()) { a.mask_off(); return dec(a, &c); } }
                if (k == 6) { IF(a.clear()) { a.clear(); return dec(a, &c); } }
            }
            c = true;
            return RV(1, false);
        };
        if constexpr (A::is_4state) e.bits = [](const RV &v, std::string &x, std::string &z) { const A a = enc<A>(v); for (int i = -1; i <= W; i++) { x += '0' + a.x_set(i); z += '0' + a.z_set(i); } };
        else e.known = [](const RV &v, long *o) {
            const A a = enc<A>(v);
            IF(a.any_set()) o[0] = a.any_set();
            IF(a.all_set()) o[1] = a.all_set();
            IF(a.popcount()) o[2] = a.popcount();
            IF(a.negative()) o[3] = a.negative();
            if (!v.zero()) IF(a.highest_bit()) o[4] = a.highest_bit();
        };
        return e;
    }
    void go() {
        auto vs = every_values(four, w, sg);
        for (int p = 0; p < w; p++) { RV r(w, sg); r.setbit(p, 1); vs.push_back(r); for (int i = 0; i < w; i++) r.setbit(i, i == p ? 0 : 1); vs.push_back(r); if (four) { r.setbit(p, 2 + p % 2); vs.push_back(r); } }
        RV ones(w, sg); for (int i = 0; i < w; i++) ones.setbit(i, 1);
        for (auto &v : vs) {
            RV neg = ref::arith(RV(w, sg), v, '-', true); neg.sg = sg;
            const RV zero(w, sg), exp[] = {four ? ref::allx(w, sg) : zero, zero, ones, neg, ones, v, zero};
            static const char *const nm[] = {"default", "= 0", "= -1", "negate", "mask", "mask_off", "clear"};
            for (int k = 0; k < (four ? 3 : 7); k++) if (C.next(&v, nullptr, nullptr, nm[k])) { bool clean = true; RV r = fill(v, k, clean); if (k < 3 || r.w == w) { r.sg = sg; every_same(r, exp[k], clean); } }
            if (four) {
                if (C.next(&v, nullptr, nullptr, "is_x/is_z")) {
                    std::string x, z, ex = "0", ez = "0";
                    bits(v, x, z);
                    for (int i = 0; i < w; i++) { ex += '0' + (v.bit(i) == 2); ez += '0' + (v.bit(i) == 3); }
                    C.eqs(x, ex + "0", "x"); C.eqs(z, ez + "0", "z");
                }
            } else if (C.next(&v, nullptr, nullptr, "queries")) {
                long o[5] = {-1, -1, -1, -1, -1}, n = 0, top = -1;
                for (int i = 0; i < w; i++) if (v.bit(i) == 1) { n++; top = i; }
                known(v, o);
                const long e[5] = {n > 0, n == w, n, sg && v.bit(w - 1) == 1, top};
                static const char *const q[] = {"any_set", "all_set", "popcount", "negative", "highest_bit"};
                for (int k = 0; k < 5; k++) if (o[k] != -1) C.equ(o[k], e[k], q[k]);
            }
        }
    }
};
void mc::run() {
    if (SHARD == 0 && C.begin("integer literals")) {
        std::vector<u64> k;
        for (u64 i = 0; i < 70000; i++) k.push_back(i);
        for (int b = 0; b < 64; b++) for (u64 d : {-2, -1, 0, 1, 2}) { k.push_back((1ull << b) + d); k.push_back(~(1ull << b) + d); k.push_back((~0ull >> b) + d); k.push_back((~0ull << b) + d); k.push_back(0xaaaaaaaaaaaaaaaaull >> b); }
        C.states += k.size();
        using namespace logic::literals;
        for (u64 v : k) {
            RV a(64, false, v);
            if (C.next(&a, nullptr, nullptr, "_logic")) C.eqt(logic::operator""_logic(v), RV(32, true, v));
            if (C.next(&a, nullptr, nullptr, "_logic64")) C.eqt(logic::operator""_logic64(v), RV(64, true, v));
            if (C.next(&a, nullptr, nullptr, "_bit")) C.eqt(logic::operator""_bit(v), RV(32, true, v));
            if (C.next(&a, nullptr, nullptr, "_bit64")) C.eqt(logic::operator""_bit64(v), RV(64, true, v));
        }
    }
    each_range(R{});
    each_width(U{});
    every_tab<E>();
}
