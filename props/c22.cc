// two-state against four-state
#include "ops.hh"
using namespace mc;
inline bool is_div(const char *n) { return n[1] == 0 && (*n == '/' || *n == '%'); }
struct Tab { std::string g; int W1, W2; bool S1, S2; std::vector<Op2> o22, o44, o42, o24; };
void pair_(const Tab &t) {
    if (!C.begin(t.g)) return;
    const int W1 = t.W1, W2 = t.W2;
    int lv = C.thorough ? 2 : W1 > 64 || W2 > 64 ? 0 : 1;
    auto as = vals(false, W1, t.S1, lv), bs = vals(false, W2, t.S2, lv);
    auto xs = vals(true, W1, t.S1, 0), ys = vals(true, W2, t.S2, 0);
    size_t k = C.thorough ? 3 : 1;
    thin(as, 64 * k); thin(bs, 64 * k); thin(xs, 40 * k); thin(ys, 24 * k);
    C.states += as.size() * bs.size();
    for (size_t i = 0; i < t.o22.size(); i++) {
        const char *n = t.o22[i].name;
        F2 f22 = t.o22[i].f, f44 = t.o44[i].f, f42 = t.o42[i].f, f24 = t.o24[i].f;
        if (!f44) continue;
        auto run = [&](const char *what, F2 f, const std::vector<RV> &as, const std::vector<RV> &bs) {
            if (!f) return;
            for (auto &a : as) for (auto &b : bs) {
                if (f != f42 && is_div(n) && b.zero()) continue;
                if (f == f22 && *n == 'g' ) {
                    // outside the range: 0 against x
                    if (b.sg && b.msb()) continue;
                    bool in = true;
                    for (int j = 31; j < b.w; j++) in &= !b.bit(j);
                    if (!in || (long)b.v[0] >= W1) continue;
                }
                if (!C.next(&a, &b, nullptr, n)) continue;
                RV e, g;
                try { e = f44(a, b); g = f(a, b); } catch (Changed &) { C.fail("an operand changed"); continue; }
                C.outcome(g.hash());
                if (f == f24 && !b.known()) {  // a two-state truth value can't be unknown
                    if (e.bit(0) >= 2 ? g.bit(0) != 0 : !g.same(e)) C.fail(std::string(what) + g.desc() + ", four-state " + e.desc());
                } else if (!g.same(e)) C.fail(std::string(what) + g.desc() + ", four-state " + e.desc());
                else if (g.sg != e.sg && f22 == f && *n != 'c') C.fail("the result types differ in signedness");
                else if (C.samples.size() < 12) C.sample(g.bin());
            }
        };
        run("two-state ", f22, as, bs);
        run("two-state right operand ", f42, as, bs);
        run("two-state right operand ", f42, xs, bs);
        run("two-state left operand ", f24, as, bs);
        run("two-state left operand ", f24, as, ys);
    }
}
void one_(int W, bool S, const std::vector<Op1> &o2, const std::vector<Op1> &o4) {
    if (!C.begin("one " + tn(false, W, S))) return;
    auto as = vals(false, W, S, C.thorough ? 3 : 2);
    C.states += as.size();
    for (size_t i = 0; i < o2.size(); i++) if (o2[i].f && o4[i].f) for (auto &a : as) {
        if (!C.next(&a, nullptr, nullptr, o2[i].name)) continue;
        RV e = o2[i].f(a), g = o4[i].f(a);
        C.outcome(g.hash());
        if (!g.same(e) || g.sg != e.sg) C.fail("two-state " + e.desc() + ", four-state " + g.desc());
    }
}
template <int W, bool S> void one() {
    using A2 = VT<false, W, S>; using A4 = VT<true, W, S>;
    one_(W, S, ops1<A2>(), ops1<A4>());
    if (!C.begin("conversion " + tn(false, W, S))) return;
    for (auto &a : vals(false, W, S, C.thorough ? 3 : 2)) {
        const A4 l = enc<A4>(a);
        if (C.next(&a, nullptr, nullptr, "to two-state and back")) { A2 b(l.value); A4 m(b); C.eq(b, a); C.eq(m, a); A4 k; k = b; C.eq(k, a); if (!m.match(l)) C.fail("does not match"); }
        if (C.next(&a, nullptr, nullptr, "read-out")) {
            const A2 b = enc<A2>(a);
            C.equ(l.to_uint64(), b.to_uint64());
            if constexpr (W <= 64) C.equ((u64)l.to_num(), (u64)b.to_num());
            for (auto f : {"b", "o", "h", "d", "s"}) if (*f != 'd' || W <= 128) C.eqs(l.str(f), b.str(f));
        }
        if (C.next(&a, nullptr, nullptr, "++ --")) {
            A4 p = l, q = l; A2 r = enc<A2>(a), s = r;
            ++p; ++r; --q; --s;
            if (!dec(p).same(dec(r)) || !dec(q).same(dec(s))) C.fail("increments differ");
        }
    }
}
struct P {
    template <int W1, bool S1, int W2, bool S2> void operator()() {
        using A2 = VT<false, W1, S1>; using A4 = VT<true, W1, S1>;
        using B2 = VT<false, W2, S2>; using B4 = VT<true, W2, S2>;
        pair_({(S1 ? "s" : "u") + std::to_string(W1) + "," + (S2 ? "s" : "u") + std::to_string(W2), W1, W2, S1, S2, ops2<A2, B2>(), ops2<A4, B4>(), ops2<A4, B2>(), ops2<A2, B4>()});
    }
};
struct O { template <int W, bool S> void operator()() { one<W, S>(); } };
// a subset of the grid: every operator is compiled four times for each pair
template <int W1, int W2, int I> void pr() {
    if constexpr (I % NSHARD == SHARD) P{}.template operator()<W1, (bool)((I + I / 4) & 1), W2, (bool)((I + I / 4) & 2)>();
}
template <int W1, int W2, int I> void both() { pr<W1, W2, 4 * I>(); pr<W1, W2, 4 * I + 1>(); pr<W1, W2, 4 * I + 2>(); pr<W1, W2, 4 * I + 3>(); }
void mc::run() {
    both<1, 1, 0>(); both<3, 3, 1>(); both<8, 8, 2>(); both<17, 17, 3>(); both<32, 32, 4>(); both<64, 64, 5>(); both<65, 65, 6>(); both<100, 100, 7>(); both<128, 128, 8>();
    both<1, 4, 9>(); both<4, 1, 10>(); both<9, 4, 11>(); both<5, 33, 12>(); both<64, 8, 13>(); both<63, 64, 14>(); both<64, 65, 15>(); both<128, 33, 16>(); both<7, 100, 17>(); both<129, 65, 18>();
#ifdef MC_THOROUGH
    both<2, 2, 19>(); both<4, 4, 20>(); both<7, 7, 21>(); both<9, 9, 22>(); both<16, 16, 23>(); both<31, 31, 24>(); both<33, 33, 25>(); both<63, 63, 26>(); both<127, 127, 27>(); both<129, 129, 28>();
    both<192, 192, 29>(); both<300, 300, 30>(); both<2, 9, 31>(); both<8, 3, 32>(); both<16, 32, 33>(); both<33, 16, 34>(); both<64, 1, 35>(); both<65, 1, 36>(); both<1, 65, 37>(); both<192, 64, 38>(); both<64, 192, 39>(); both<300, 100, 40>(); both<128, 129, 41>();
#endif
    each_width(O{});
}
