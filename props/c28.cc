// big_num on its own: same-size and mixed-size operators, shifts, comparisons, slices, extension, queries, constructors
#include "pairs.hh"
using namespace mc;
#define IF(e) if constexpr (requires { e; })  // helpers that may come and go
template <uint64_t W, bool S> struct N {  // gives a big_num the shape the engine decodes
    static constexpr int size = W;
    static constexpr bool is_signed = S, is_4state = false;
    std::conditional_t<(W > 64), logic::big_num<W, S>, u64> value;
};
template <uint64_t W, bool S> N<W, S> see(const logic::big_num<W, S> &b) { if constexpr (W > 64) return {b}; else return {b.values[0]}; }
template <uint64_t W, bool S> logic::big_num<W, S> mk(const RV &a) { logic::big_num<W, S> b; for (int i = 0; i < (int)b.s; i++) b.values[i] = a.v[i]; return b; }
RV assigned(const RV &a, int w) { return ref::resize(a, w, false, a.sg); }

template <int W1, bool S1, int W2, bool S2> void two() {
    if (!C.begin("two " + tn(false, W1, S1) + "," + tn(false, W2, S2))) return;
    int lv = C.thorough ? (W1 + W2 < 140 ? 3 : 2) : (W1 + W2 < 300 ? 2 : 1);
    auto as = vals(false, W1, S1, lv), bs = vals(false, W2, S2, lv);
    C.states += as.size() + bs.size();
    auto judge = [&](const RV &a, const auto &x, const RV &b) {
        const auto y = mk<W2, S2>(b);
        if (C.next(&a, &b, nullptr, "+")) C.eqt(see(x + y), ref::arith(a, b, '+', false));
        if (C.next(&a, &b, nullptr, "-")) C.eqt(see(x - y), ref::arith(a, b, '-', false));
        if (C.next(&a, &b, nullptr, "*")) C.eqt(see(x * y), ref::arith(a, b, '*', false));
        if (C.next(&a, &b, nullptr, "/")) C.eqt(see(x / y), ref::arith(a, b, '/', false));
        if (C.next(&a, &b, nullptr, "%")) C.eqt(see(x % y), ref::arith(a, b, '%', false));
        if (C.next(&a, &b, nullptr, "&")) C.eqt(see(x & y), ref::r_and(a, b));
        if (C.next(&a, &b, nullptr, "|")) C.eqt(see(x | y), ref::r_or(a, b));
        if (C.next(&a, &b, nullptr, "^")) C.eqt(see(x ^ y), ref::r_xor(a, b));
        int c = ref::cmp(a, b);
        if (C.next(&a, &b, nullptr, "compare")) { C.eqb(x == y, c == 0, "=="); C.eqb(x != y, c != 0, "!="); C.eqb(x < y, c < 0, "<"); C.eqb(x <= y, c <= 0, "<="); C.eqb(x > y, c > 0, ">"); C.eqb(x >= y, c >= 0, ">="); }
        if (C.next(&a, &b, nullptr, "&=")) { auto t = x; C.eq(see(t &= y), assigned(ref::r_and(a, b), W1)); C.eq(see(t), assigned(ref::r_and(a, b), W1), "target"); }
        if (C.next(&a, &b, nullptr, "|=")) { auto t = x; C.eq(see(t |= y), assigned(ref::r_or(a, b), W1)); C.eq(see(t), assigned(ref::r_or(a, b), W1), "target"); }
        if (C.next(&a, &b, nullptr, "^=")) { auto t = x; C.eq(see(t ^= y), assigned(ref::r_xor(a, b), W1)); C.eq(see(t), assigned(ref::r_xor(a, b), W1), "target"); }
        if constexpr (W1 == W2 && S1 != S2) if (C.next(nullptr, &b, nullptr, "converted")) { logic::big_num<W1, S1> t = y; C.eq(see(t), b); t = x; t = y; C.eq(see(t), b); }
        if (C.next(&a, &b, nullptr, "concat")) C.eq(see(x.concat(y)), ref::cat(a, b));
    };
    for (auto &a : as) {
        const auto x = mk<W1, S1>(a);
        for (auto &b : bs) judge(a, x, b);
        if (W1 == W2) { RV t = a; t.sg = S2; judge(a, x, t); }
    }
    for (auto &[a, b] : above(W1, S1, W2, S2)) judge(a, mk<W1, S1>(a), b);
}
struct P { template <int W1, bool S1, int W2, bool S2> void operator()() { if constexpr (W1 > 64 && W2 > 64) two<W1, S1, W2, S2>(); } };

template <int W, bool S> struct One {
    using B = logic::big_num<W, S>;
    template <int I> static void constant(const RV &v, const B &x) {
        if constexpr (I >= 0 && I < W) {
            if (C.next(&v, nullptr, nullptr, "constant index")) {
                C.note2 = std::to_string(I);
                C.eqb(x.template get<I>(), v.bit(I) == 1, "get<>()");
                for (int b = 0; b < 2; b++) {
                    RV e = v; e.setbit(I, b);
                    B t = x; t.template set<I>(b); C.eq(see(t), e, "set<>(v)");
                    t = x; if (b) t.template set<I, true>(); else t.template set<I, false>();
                    C.eq(see(t), e, "set<,>()");
                }
                C.note2.clear();
            }
        } else if constexpr (I >= W) {
            if (C.next(&v, nullptr, nullptr, "constant index above")) C.eqb(x.template get<I>(), false);
        }
    }
    template <int H, int L> static void part_(const RV &v, const B &x) {
        if constexpr (L >= 0 && H >= L && H < W) {
            if (C.next(&v, nullptr, nullptr, "slice")) {
                C.note2 = std::to_string(H) + ":" + std::to_string(L);
                RV e = ref::part(v, L, H - L + 1, 0);
                C.eqt(see(x.template slice<H, L>()), e, "constant");
                C.eqt(see(x.template slice<L, H>()), e, "constant reversed");
                C.eqt(see(x.template slice<H - L + 1>(H, L)), e, "run time");
                C.eqt(see(x.template slice<H - L + 1>(L, H)), e, "run time reversed");
                C.eqt(see(x.template slice<H - L + 66>(H, L)), ref::resize(e, H - L + 66, false, false), "run time, wider");
                C.note2.clear();
            }
        }
    }
    template <int T> static void wider(const RV &v, const B &x) {
        if constexpr (T >= W) if (C.next(&v, nullptr, nullptr, "extend")) { C.note2 = std::to_string(T); C.eqt(see(x.template extend<T>()), ref::resize(v, T, S, S)); C.note2.clear(); }
    }
    template <class T> static void from() {
        std::vector<T> k;
        if constexpr (sizeof(T) == 1) for (int i = 0; i < 256; i++) k.push_back((T)i);
        else for (int b = 0; b < (int)sizeof(T) * 8; b++) for (long d : {-2, -1, 0, 1, 2}) { k.push_back((T)((1ull << b) + d)); k.push_back((T)(~(1ull << b) + d)); }
        for (T t : k) {
            RV a(64, std::is_signed_v<T>, (u64)(int64_t)t);
            if (!std::is_signed_v<T>) a.v[0] = (u64)t;
            RV e = ref::conv(a, W, S);
            if (C.next(&a, nullptr, nullptr, "from an integer")) { C.eq(see(B(t)), e); C.equ(B(t).to_uint64(), e.v[0], "to_uint64"); }
            if (!std::is_signed_v<T> || t >= 0) if (C.next(&a, nullptr, nullptr, "== integer")) {
                C.eqb(mk<W, S>(e) == t, true);
                for (int p : edges(W, 1)) { RV o = e; o.setbit(p, !e.bit(p)); C.eqb(mk<W, S>(o) == t, false, "other"); }
            }
        }
    }
    template <int W2, bool S2> static void by(const std::vector<RV> &vs) {  // shift amounts that are numbers themselves
        std::vector<RV> am; std::set<RV> seen;
        for (int i : {0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, W / 2, W - 2, W - 1, W, W + 1, W + 64}) push(am, seen, RV(W2, S2, i));
        for (int p : edges(W2, 1)) for (u64 k : {0, 1, 64}) { RV r(W2, S2, k); r.setbit(p, 1); push(am, seen, r); }
        for (auto &v : vs) {
            const B x = mk<W, S>(v);
            for (auto &n : am) {
                const auto k = mk<W2, S2>(n);
                if (C.next(&v, &n, nullptr, "<< number")) C.eq(see(x << k), ref::shift(v, n, '<'));
                if (C.next(&v, &n, nullptr, ">> number")) C.eq(see(x >> k), ref::shift(v, n, '>'));
                if (C.next(&v, &n, nullptr, "ashl number")) C.eq(see(x.ashl(k)), ref::shift(v, n, '<'));
                if (C.next(&v, &n, nullptr, "ashr number")) sar(see(x.ashr(k)), v, ref::amount(n));
            }
        }
    }
    template <class R> static void sar(const R &r, const RV &v, u64 k) {
        RV e = S ? ref::sar(v, k) : ref::shr(v, k);
        if (S && v.msb() && k < (u64)W && C.kfon.count("big-ashr-sign")) {  // known finding, as for C07
            RV w = e; w.setbit(W - 1 - (long)k, 0);
            bool clean; RV g = dec(r, &clean);
            if (clean && g.same(w)) { C.known("big-ashr-sign", "got " + g.bin()); return; }
        }
        C.eq(r, e);
    }
    void run() {
        if (!C.begin("one " + tn(false, W, S))) return;
        auto vs = vals(false, W, S, C.thorough ? 3 : 2);
        auto few = vals(false, W, S, 1);
        C.states += vs.size();
        if (C.next(nullptr, nullptr, nullptr, "default")) { B a; C.eq(see(a), RV(W, S)); B b{}; C.eq(see(b), RV(W, S)); B *p = new B; C.eq(see(*p), RV(W, S)); delete p; }
        RV one(W, S, 1), ones(W, S); for (int i = 0; i < W; i++) ones.setbit(i, 1);
        for (auto &v : vs) {
            const B x = mk<W, S>(v);
            int n = 0, top = -1; for (int i = 0; i < W; i++) if (v.bit(i) == 1) { n++; top = i; }
            if (C.next(&v, nullptr, nullptr, "~")) C.eq(see(~x), ref::r_not(v));
            if (C.next(&v, nullptr, nullptr, "negate")) { C.eq(see(x.negate()), ref::neg(v)); C.eq(see(-x), ref::neg(v), "-"); C.eq(see(+x), v, "+"); C.eq(see(x), v, "operand"); }
            if (C.next(&v, nullptr, nullptr, "queries")) {
                IF(x.any_set()) C.eqb(x.any_set(), n > 0, "any_set"); IF(x.all_set()) C.eqb(x.all_set(), n == W, "all_set"); C.eqb((bool)x, n > 0, "bool");
                IF(x.r_and()) C.eqb(x.r_and(), n == W, "r_and"); IF(x.r_xor()) C.eqb(x.r_xor(), n & 1, "r_xor"); IF(x.popcount()) C.equ(x.popcount(), n, "popcount");
                IF(x.is_one()) C.eqb(x.is_one(), v.same(one), "is_one"); IF(x.fit_in_64()) C.eqb(x.fit_in_64(), top < 64, "fit_in_64"); C.equ(x.to_uint64(), v.v[0], "to_uint64");
                IF(x.highest_bit()) if (n) C.equ(x.highest_bit(), top, "highest_bit");
                if constexpr (S) IF(x.negative()) C.eqb(x.negative(), v.msb(), "negative");
            }
            if (C.next(&v, nullptr, nullptr, "fills")) {
                B t = x;
                IF(t.clear()) { t.clear(); C.eq(see(t), RV(W, S), "clear"); }
                IF(t.unmask()) { t = x; t.unmask(); C.eq(see(t), RV(W, S), "unmask"); }
                IF(t.mask()) { t = x; t.mask(); C.eq(see(t), ones, "mask"); }
                IF(t.mask_off()) { t = x; t.mask_off(); C.eq(see(t), v, "mask_off"); for (auto &q : t.values) q = ~0ull; t.mask_off(); C.eq(see(t), ones, "mask_off of all ones"); }
            }
            if (C.next(&v, nullptr, nullptr, "to_signed")) IF(x.to_signed()) C.eqt(see(x.to_signed()), RV(ref::resize(v, W, false, true)));
            if (C.next(&v, nullptr, nullptr, "bits read")) { for (int i = 0; i < W; i++) C.eqb(x[i], v.bit(i) == 1); for (u64 i : std::initializer_list<u64>{(u64)W, (u64)W + 1, (u64)W + 63, (u64)W + 64, 1ull << 32, 1ull << 63, ~0ull}) C.eqb(x[i], false, "above"); }
            // every amount
            for (int k = 0; k <= W + 3; k++) if (C.thorough || W < 70 || k < 3 || k > W - 3 || k % 64 < 2 || k % 64 > 61 || k % 13 == 0) if (C.next(&v, nullptr, nullptr, "shift")) {
                C.note2 = std::to_string(k);
                C.eq(see(x << (u64)k), ref::shl(v, k), "<<"); C.eq(see(x >> (u64)k), ref::shr(v, k), ">>"); C.eq(see(x.ashl((u64)k)), ref::shl(v, k), "ashl");
                sar(see(x.ashr((u64)k)), v, k);
                C.note2.clear();
            }
            for (u64 k : std::initializer_list<u64>{1ull << 31, 1ull << 32, (1ull << 32) + 1, 1ull << 63, ~0ull, ~0ull - 63}) if (C.next(&v, nullptr, nullptr, "huge shift")) {
                C.eq(see(x << k), ref::shl(v, k), "<<"); C.eq(see(x >> k), ref::shr(v, k), ">>"); C.eq(see(x.ashl(k)), ref::shl(v, k), "ashl");
                C.eq(see(x.ashr(k)), S ? ref::sar(v, k) : ref::shr(v, k), "ashr");
            }
            wider<W>(v, x); wider<W + 1>(v, x); wider<W + 63>(v, x); wider<W + 64>(v, x); wider<128>(v, x); wider<192>(v, x); wider<300>(v, x); wider<320>(v, x);
        }
        for (auto &v : few) {
            const B x = mk<W, S>(v);
            if (C.next(&v, nullptr, nullptr, "bits written")) for (int i = 0; i < W; i++) for (int b = 0; b < 2; b++) { RV e = v; e.setbit(i, b); B t = x; t.set(i, b); C.eq(see(t), e); }
            if (C.next(&v, nullptr, nullptr, "bits written above")) for (u64 i : std::initializer_list<u64>{(u64)W, (u64)W + 1, (u64)W + 63, (u64)W + 64, 1ull << 32, 1ull << 63, ~0ull}) for (int b = 0; b < 2; b++) { B t = x; t.set(i, b); C.eq(see(t), v); }
            constant<0>(v, x); constant<1>(v, x); constant<31>(v, x); constant<32>(v, x); constant<63>(v, x); constant<64>(v, x); constant<65>(v, x); constant<127>(v, x); constant<128>(v, x); constant<W - 2>(v, x); constant<W - 1>(v, x); constant<W>(v, x); constant<W + 64>(v, x); constant<1 << 30>(v, x);
            part_<0, 0>(v, x); part_<63, 0>(v, x); part_<64, 0>(v, x); part_<64, 1>(v, x); part_<63, 32>(v, x); part_<64, 63>(v, x); part_<64, 64>(v, x); part_<100, 40>(v, x); part_<127, 63>(v, x); part_<127, 64>(v, x); part_<128, 64>(v, x);
            part_<W - 1, 0>(v, x); part_<W - 1, 1>(v, x); part_<W - 1, W - 1>(v, x); part_<W - 1, 63>(v, x); part_<W - 1, 64>(v, x); part_<W - 2, 3>(v, x); part_<W - 1, W - 65>(v, x);
        }
        from<int8_t>(); from<uint8_t>(); from<int16_t>(); from<uint16_t>(); from<int32_t>(); from<uint32_t>(); from<int64_t>(); from<uint64_t>(); from<bool>();
        auto tiny = vals(false, W, S, 0);
        by<65, false>(tiny); by<65, true>(tiny); by<128, false>(tiny); by<200, S>(tiny);
    }
};
struct W_ { template <int W, bool S> void operator()() { if constexpr (W > 64) One<W, S>{}.run(); } };
void mc::run() { each_width(W_{}); each_pair(P{}); }
