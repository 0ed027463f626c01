// compound assignments, increments, and operands that must not change
#include "ops.hh"
using namespace mc;
// result of a op= b, and of a = a op b, with the side conditions in `bad`
struct CR { RV got, want; const char *bad = nullptr; bool got_clean = true; };
using FC = CR (*)(const RV &, const RV &);
using FS = CR (*)(const RV &);
template <class A, class B, class OP, class CO> FC fc(OP, CO) {
    if constexpr (requires(A &a, const B &b) { CO{}(a, b); OP{}(a, b); })
        return [](const RV &x, const RV &y) {
            CR r;
            A a = enc<A>(x), w = enc<A>(x);
            const B b = enc<B>(y);
            auto &&ret = CO{}(a, b);
            if constexpr (std::is_same_v<std::remove_reference_t<decltype(ret)>, A>) { if (&ret != &a) r.bad = "did not return the assigned vector"; }
            else r.bad = "did not return the assigned vector";
            w = OP{}(w, b);
            r.got = dec(a, &r.got_clean);
            r.want = dec(w);
            if (!dec(b).same(y)) r.bad = "changed the right operand";
            return r;
        };
    else return nullptr;
}
template <class A, class OP, class CO> FS fs(OP, CO) {
    if constexpr (requires(A &a) { CO{}(a, a); OP{}(a, a); })
        return [](const RV &x) {
            CR r;
            A a = enc<A>(x), w = enc<A>(x);
            const A b = enc<A>(x);
            CO{}(a, a);
            w = OP{}(b, b);
            r.got = dec(a, &r.got_clean);
            r.want = dec(w);
            return r;
        };
    else return nullptr;
}
#define MC_COMPOUND(X) X("&", &) X("|", |) X("^", ^) X("<<", <<) X(">>", >>)
struct EC { const char *n; FC f; };
struct ES { const char *n; FS f; };
template <class A, class B> std::vector<EC> tabc() {
    std::vector<EC> o;
#define X(nm, op) o.push_back({nm "=", fc<A, B>([](const auto &a, const auto &b) -> decltype(a op b) { return a op b; }, [](auto &a, const auto &b) -> decltype(a op##= b) { return a op##= b; })});
    MC_COMPOUND(X)
#undef X
    return o;
}
template <class A> std::vector<ES> tabs() {
    std::vector<ES> o;
#define X(nm, op) o.push_back({nm "=", fs<A>([](const auto &a, const auto &b) -> decltype(a op b) { return a op b; }, [](auto &a, const auto &b) -> decltype(a op##= b) { return a op##= b; })});
    MC_COMPOUND(X)
#undef X
    return o;
}
void judge(const CR &r) {
    C.outcome(r.got.hash());
    if (r.bad) C.fail(r.bad);
    else if (!r.got.same(r.want)) C.fail("left " + r.got.bin() + ", the operation then assignment leaves " + r.want.bin());
    else if (!r.got_clean) C.fail("left " + r.got.bin() + " with residue above its width");
    else if (C.samples.size() < 12) C.sample(r.got.bin());
}
void pair_(const std::string &g, bool F, int W1, bool S1, int W2, bool S2, bool F2_, const std::vector<EC> &t, const std::vector<Op2> &o) {
    if (!C.begin(g)) return;
    auto as = vals(F, W1, S1, 1), bs = vals(F2_, W2, S2, 1);
    size_t k = C.thorough ? 3 : 1;
    thin(as, 60 * k); thin(bs, 60 * k);
    auto sh = bs;  // shift amounts
    for (u64 n = 0; n < (u64)W1 + 3; n++) if (W1 < 20 || n < 3 || n % 64 < 2 || n % 64 > 61 || n + 3 > (u64)W1) { RV r(W2, S2, n); if (r.v[0] == n) sh.push_back(r); }
    C.states += as.size() * bs.size();
    for (auto &e : t) if (e.f) for (auto &a : as) for (auto &b : *e.n == '<' || *e.n == '>' ? sh : bs) {
        if (C.next(&a, &b, nullptr, e.n)) judge(e.f(a, b));
    }
    // binary operators leave their operands alone
    thin(as, 12 * k); thin(bs, 12 * k);
    for (auto &e : o) if (e.f) for (auto &a : as) for (auto &b : bs) {
        if (!C.next(&a, &b, nullptr, e.name)) continue;
        try { C.outcome(e.f(a, b).hash()); } catch (Changed &) { C.fail("an operand changed"); }
    }
}
template <bool F, int W, bool S> void one() {
    using A = VT<F, W, S>;
    if (!C.begin("self " + tn(F, W, S))) return;
    auto as = vals(F, W, S, C.thorough ? 3 : 2);
    C.states += as.size();
    auto t = tabs<A>();
    for (auto &e : t) if (e.f) for (auto &a : as) if (C.next(&a, nullptr, nullptr, e.n)) { C.note2 = "itself"; judge(e.f(a)); C.note2.clear(); }
    for (auto &v : as) {
        const RV one(W, S, 1);
        RV inc = ref::arith(v, one, '+', true), dcr = ref::arith(v, one, '-', true);
        inc.sg = dcr.sg = S;
        if (C.next(&v, nullptr, nullptr, "++a")) { A a = enc<A>(v); auto &r = ++a; if ((void *)&r != (void *)&a) C.fail("did not return the vector itself"); C.eq(a, inc); }
        if (C.next(&v, nullptr, nullptr, "--a")) { A a = enc<A>(v); auto &r = --a; if ((void *)&r != (void *)&a) C.fail("did not return the vector itself"); C.eq(a, dcr); }
        if (C.next(&v, nullptr, nullptr, "a++")) { A a = enc<A>(v); auto r = a++; C.eq(r, v, "returned"); C.eq(a, inc); }
        if (C.next(&v, nullptr, nullptr, "a--")) { A a = enc<A>(v); auto r = a--; C.eq(r, v, "returned"); C.eq(a, dcr); }
        if (C.next(&v, nullptr, nullptr, "++--a")) { A a = enc<A>(v); ++a; --a; C.eq(a, v.known() ? v : ref::allx(W, S)); }
    }
    auto u = ops1<A>();
    thin(as, 60);
    for (auto &e : u) if (e.f) for (auto &a : as) {
        if (!C.next(&a, nullptr, nullptr, e.name)) continue;
        try { C.outcome(e.f(a).hash()); } catch (Changed &) { C.fail("the operand changed"); }
    }
}
template <bool F, bool F2_, int W1, bool S1, int W2, bool S2> void pr() {
    using A = VT<F, W1, S1>; using B = VT<F2_, W2, S2>;
    auto t = tabc<A, B>();
    bool any = false;
    for (auto &e : t) any |= e.f != nullptr;
    if (!any) return;
    pair_(tn(F, W1, S1) + "," + tn(F2_, W2, S2), F, W1, S1, W2, S2, F2_, t, F == F2_ ? ops2<A, B>() : std::vector<Op2>{});
}
struct O { template <int W, bool S> void operator()() { one<true, W, S>(); one<false, W, S>(); } };
template <int W1, int W2, int I> void p1() {
    if constexpr (I % NSHARD == SHARD) { constexpr bool s1 = (I + I / 4) & 1, s2 = (I + I / 4) & 2; pr<true, true, W1, s1, W2, s2>(); pr<false, false, W1, s1, W2, s2>(); pr<true, false, W1, s1, W2, s2>(); }
}
template <int W1, int W2, int I> void both() { p1<W1, W2, 4 * I>(); p1<W1, W2, 4 * I + 1>(); p1<W1, W2, 4 * I + 2>(); p1<W1, W2, 4 * I + 3>(); }
void mc::run() {
    both<1, 1, 0>(); both<2, 2, 1>(); both<3, 3, 2>(); both<8, 8, 3>(); both<9, 9, 4>(); both<31, 31, 5>(); both<32, 32, 6>(); both<64, 64, 7>(); both<65, 65, 8>(); both<128, 128, 9>(); both<100, 100, 10>();
    both<4, 1, 11>(); both<1, 4, 12>(); both<8, 3, 13>(); both<3, 8, 14>(); both<33, 8, 15>(); both<8, 33, 16>(); both<64, 65, 17>(); both<65, 64, 18>(); both<128, 32, 19>(); both<32, 128, 20>(); both<63, 64, 21>(); both<129, 65, 22>(); both<65, 129, 23>();
#ifdef MC_THOROUGH
    both<4, 4, 24>(); both<7, 7, 25>(); both<16, 16, 26>(); both<17, 17, 27>(); both<33, 33, 28>(); both<63, 63, 29>(); both<127, 127, 30>(); both<129, 129, 31>(); both<192, 192, 32>(); both<300, 300, 33>();
    both<16, 9, 34>(); both<9, 16, 35>(); both<300, 64, 36>(); both<64, 300, 37>(); both<192, 100, 38>(); both<100, 192, 39>(); both<2, 64, 40>(); both<300, 1, 41>(); both<1, 65, 42>(); both<65, 1, 43>();
#endif
    each_width(O{});
}
