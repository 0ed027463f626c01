// results depend only on the visible bits: exploration of raw object states
#include "ops.hh"
#include <deque>
#include <unordered_map>
using namespace mc;
u64 noncanon = 0;
// everything a later operation could see of r, against the same bits written directly
template <class R> const char *differ(const R &r, const R &c) {
    constexpr bool F = R::is_4state;
    constexpr int W = R::size;
    if ((bool)r != (bool)c) return "truth value";
    if (r.to_uint64() != c.to_uint64()) return "to_uint64";
    for (auto f : {"b", "o", "h", "d", "s"}) if (r.str(f) != c.str(f)) return "text";
    if constexpr (F) { if (!r.match(c)) return "match"; } else if (r != c) return "equality";
    if (!norm(r == c).same(norm(c == c)) || !norm(c == r).same(norm(c == c))) return "==";
    if (!norm(r < c).same(norm(c < c)) || !norm(c < r).same(norm(c < c)) || !norm(r >= c).same(norm(c >= c))) return "<";
    if (!norm(~r).same(norm(~c)) || !norm(-r).same(norm(-c)) || !norm(r + c).same(norm(c + c)) || !norm(r * r).same(norm(c * c)) || !norm(r - c).same(norm(c - c))) return "arithmetic";
    if (!norm(r & c).same(norm(c & c)) || !norm(c | r).same(norm(c | c)) || !norm(r ^ c).same(norm(c ^ c))) return "bitwise";
    if (!norm(r.r_and()).same(norm(c.r_and())) || !norm(r.r_or()).same(norm(c.r_or())) || !norm(r.r_xor()).same(norm(c.r_xor())) || !norm(!r).same(norm(!c))) return "reduction";
    if (!norm(r.template extend<W + 1>()).same(norm(c.template extend<W + 1>())) || !norm(r.template extend<W + 70>()).same(norm(c.template extend<W + 70>()))) return "extension";
    const auto one = enc<VT<F, 3, false>>(RV(3, false, 1));
    if (!norm(r >> one).same(norm(c >> one)) || !norm(r << one).same(norm(c << one)) || !norm(one << r).same(norm(one << c))) return "shift";
    if constexpr (requires { r.ashr(one); }) if (!norm(r.ashr(one)).same(norm(c.ashr(one)))) return "ashr";
    if (!norm(r.concat(one)).same(norm(c.concat(one))) || !norm(one.concat(r)).same(norm(one.concat(c)))) return "concatenation";
    if (!norm(r.template slice<W>(W - 1, 0)).same(norm(c.template slice<W>(W - 1, 0)))) return "slice";
    if (!norm(one.get(r)).same(norm(one.get(c)))) return "index";
    if (!norm(r / r).same(norm(c / c)) || !norm(c % r).same(norm(c % c))) return "division";
    if constexpr (!F) if (r.popcount() != c.popcount()) return "popcount";
    return nullptr;
}
template <class R> void probe(const R &r) {
    bool clean;
    RV g = dec(r, &clean);
    C.outcome(g.hash());
    if (clean) return;
    noncanon++;
    const R c = enc<R>(g);
    if (auto d = differ(r, c)) C.fail("shows " + g.desc() + " but keeps residue: its " + d + " differs from the same bits written directly");
}
inline void probe(bool) {}
template <class T> struct EX {
    static constexpr bool F = T::is_4state, S = T::is_signed;
    static constexpr int W = T::size;
    using Act = void (*)(const T &, const T &, T &, long);
    struct A { const char *n; Act f; long from = 0, to = 0; bool unary = false; };
    std::vector<A> acts;
    template <class R> static void back(const R &r, T &o) {
        probe(r);
        if constexpr (std::is_same_v<R, bool>) o = (uint64_t)r; else o = r;
    }
    template <class L> void bin(const char *n, L, bool unary = false) {
        if constexpr (requires(const T &a, const T &b) { L{}(a, b); }) acts.push_back({n, [](const T &a, const T &b, T &o, long) { back(L{}(a, b), o); }, 0, 0, unary});
    }
    template <class L> void mut(const char *n, L, long from = 0, long to = 0, bool unary = false) {
        if constexpr (requires(T &a, const T &b) { L{}(a, b, 0l); }) acts.push_back({n, [](const T &a, const T &b, T &o, long k) { o = a; L{}(o, b, k); }, from, to, unary});
    }
    template <class P> void partner() {
        using PT = P;
#define X(nm, expr) { auto l = [](const auto &a, const auto &q) -> decltype(expr) { return expr; }; using LL = decltype(l); \
    if constexpr (requires(const T &a, const PT &q) { l(a, q); }) acts.push_back({nm " of another type", [](const T &a, const T &b, T &o, long) { PT q; q = b; probe(q); back(LL{}(a, q), o); }}); }
        X("&", a & q) X("|", a | q) X("^", a ^ q) X("+", a + q) X("-", a - q) X("*", a * q) X("/", a / q) X("%", a % q) X("<<", a << q) X(">>", a >> q) X("<", a < q) X("concat", a.concat(q)) X("concat", q.concat(a))
        X("&", q & a) X("-", q - a) X("<<", q << a)
#undef X
        mut("= another type", [](T &a, const T &b, long) { PT q; q = b; probe(q); a = q; });
        mut("^= another type", [](T &a, const T &b, long) -> decltype((void)(a ^= PT())) { PT q; q = b; a ^= q; });
        mut("|= another type", [](T &a, const T &b, long) -> decltype((void)(a |= PT())) { PT q; q = b; a |= q; });
        mut("update from another type", [](T &a, const T &b, long k) { PT q; q = b; a.update(k + 2, k, q); }, -3, W);
    }
    EX() {
#define X(nm, expr) bin(nm, [](const auto &a, const auto &b) -> decltype(expr) { return expr; });
        X("&", a & b) X("|", a | b) X("^", a ^ b) X("+", a + b) X("-", a - b) X("*", a * b) X("/", a / b) X("%", a % b) X("<<", a << b) X(">>", a >> b)
        X("ashr", a.ashr(b)) X("ashl", a.ashl(b)) X("==", a == b) X("<", a < b) X(">=", a >= b) X("match", a.match(b)) X("concat", a.concat(b)) X("get", a.get(b))
#undef X
#define X(nm, expr) bin(nm, [](const auto &a, const auto &) -> decltype(expr) { return expr; }, true);
        X("~", ~a) X("neg", -a) X("plus", +a) X("!", !a) X("r_and", a.r_and()) X("r_or", a.r_or()) X("r_xor", a.r_xor()) X("to_signed", a.to_signed()) X("to_unsigned", a.to_unsigned())
        X("~~", ~~a) X("signed twice", a.to_signed().to_unsigned().to_signed())
        X("negate", a.negate())
        X("extend", a.template extend<(std::decay_t<decltype(a)>::size + 1)>()) X("extend", a.template extend<(std::decay_t<decltype(a)>::size + 66)>())
        X("signed extend", a.to_signed().template extend<(std::decay_t<decltype(a)>::size + 1)>())
        X("top slice", (a.template slice<(int)std::decay_t<decltype(a)>::size - 1, (int)(std::decay_t<decltype(a)>::size / 2)>()))
        X("low slice", (a.template slice<(int)(std::decay_t<decltype(a)>::size / 2), 0>()))
#undef X
        mut("&=", [](auto &a, const auto &b, long) -> decltype((void)(a &= b)) { a &= b; });
        mut("|=", [](auto &a, const auto &b, long) -> decltype((void)(a |= b)) { a |= b; });
        mut("^=", [](auto &a, const auto &b, long) -> decltype((void)(a ^= b)) { a ^= b; });
        mut("<<=", [](auto &a, const auto &b, long) -> decltype((void)(a <<= b)) { a <<= b; });
        mut(">>=", [](auto &a, const auto &b, long) -> decltype((void)(a >>= b)) { a >>= b; });
        mut("++", [](T &a, const T &, long) { ++a; }, 0, 0, true); mut("--", [](T &a, const T &, long) { --a; }, 0, 0, true);
        mut("post++", [](T &a, const T &, long) { probe(a++); }, 0, 0, true); mut("post--", [](T &a, const T &, long) { probe(a--); }, 0, 0, true);
        mut("=", [](T &a, const T &b, long) { a = b; });
        mut("set", [](T &a, const T &b, long k) { if constexpr (F) a.set((int)k, b.r_or()); else a.set((int)k, (bool)b); }, -2, W + 1);
        mut("set known", [](T &a, const T &, long k) { a.set((int)k, true); a.set((int)(k + 1), false); }, -2, W + 1, true);
        mut("update", [](T &a, const T &b, long k) { a.update(k + W / 2, k, b); }, -W - 1, W + 1);
        mut("update backwards", [](T &a, const T &b, long k) { a.update(k, k + W / 2, b); }, -W - 1, W + 1);
        mut("update part", [](T &a, const T &b, long) { a.template update<W - 1, W / 2>(b); });
        mut("slice reference", [](T &a, const T &b, long k) { a.slice_ref(k + 1, k) = b; }, -2, W + 1);
        mut("fixed slice reference", [](T &a, const T &b, long) { a.template slice_ref<W - 1, W / 2>() = b; });
        mut("slice", [](T &a, const T &b, long k) { auto s = b.template slice<2>(k + 1, k); probe(s); a = s; }, -2, W + 1);
        mut("unpack", [](T &a, const T &b, long) { VT<F, 2, true> x; VT<F, W + 3, S> y; VT<F, 5, false> z = enc<VT<F, 5, false>>(RV(5, false, 0x15)); b.concat(b).concat(z).unpack(x, y, a); probe(x); probe(y); });
        mut("from an integer", [](T &a, const T &, long k) { a = (int64_t)k; }, -9, 9, true);
        mut("from a char", [](T &a, const T &, long k) { a = (int8_t)k; }, -9, 9, true);
        mut("built from an integer", [](T &a, const T &, long k) { if constexpr (requires { T((int64_t)k); }) a = T((int64_t)k); }, -9, 9, true);
        mut("text b", [](T &a, const T &b, long) { std::string s = "'b" + b.str("b"); a = T(std::string_view(s)); }, 0, 0, true);
        mut("wider text", [](T &a, const T &b, long) { std::string s = "'b1" + b.str("b") + (F ? "z" : "1"); a = T(std::string_view(s)); }, 0, 0, true);
        mut("all ones", [](auto &a, const auto &, long) -> decltype((void)a.mask()) { a.mask(); }, 0, 0, true);
        mut("clear", [](auto &a, const auto &, long) -> decltype((void)a.clear()) { a.clear(); }, 0, 0, true);
        mut("negate in place", [](auto &a, const auto &, long) -> decltype((void)a.negate()) { a.negate(); }, 0, 0, true);
        if constexpr (F) {
            mut("two-state and", [](T &a, const T &b, long) { VT<false, W, S> q(b.value); probe(q); auto r = a & q; probe(r); a = r; });
            mut("two-state plus", [](T &a, const T &b, long) { VT<false, W, S> q(b.value); auto r = a + q; probe(r); a = r; });
            mut("from two-state", [](T &a, const T &b, long) { VT<false, W, S> q(b.value); a = T(q); });
        }
        partner<VT<F, W + 1, !S>>();
        partner<VT<F, (W > 1 ? W - 1 : 1), true>>();
        if constexpr (W < 64) partner<VT<F, 65, false>>(); else partner<VT<F, 40, true>>();
    }
    using Raw = std::string;
    static Raw raw(const T &t) { return Raw((const char *)&t, sizeof(T)); }
    std::vector<T> states;
    std::unordered_map<Raw, size_t> seen;
    void reach(const T &t) { auto r = raw(t); if (seen.emplace(r, states.size()).second) states.push_back(t); }
    void apply(const A &a, size_t i, size_t j, bool full) {
        for (long k = a.from; k <= a.to; k++) {
            if (!full && a.to > a.from + 8 && !(k < 3 || k % 64 < 2 || k % 64 > 61 || k > a.to - 3)) continue;
            RV ra = dec(states[i]), rb = dec(states[j]);
            if (!C.next(&ra, a.unary ? nullptr : &rb, nullptr, a.n)) continue;
            const T x = states[i], y = states[j];
            T o;
            a.f(x, y, o, k);
            probe(o);
            if (raw(x) != raw(states[i]) || raw(y) != raw(states[j])) C.fail("an operand changed");
            if (full || !clean(o)) reach(o);
        }
    }
    static bool clean(const T &t) { bool c; dec(t, &c); return c; }
    // all raw states reachable from the default one, all operations between all of them
    void closure() {
        if (!C.begin("closure " + tn(F, W, S))) return;
        reach(T());
        for (size_t i = 0; i < states.size(); i++) for (size_t j = 0; j <= i; j++) for (auto &a : acts) {
            if (a.unary && j != i) continue;
            apply(a, i, j, true);
            if (i != j) apply(a, j, i, true);
        }
        finish("closure_raw_states");
        // each visible value has been reached
        std::set<RV> vis;
        for (auto &t : states) vis.insert(dec(t));
        u64 all = 1;
        for (int i = 0; i < W; i++) all *= F ? 4 : 2;
        C.extra["closure_visible_states"] += vis.size();
        if (!C.replay && vis.size() != all) C.fail("only " + std::to_string(vis.size()) + " of " + std::to_string(all) + " values can be produced");
    }
    void finish(const char *k) { C.states += states.size(); C.extra[k] += states.size(); C.extra["noncanonical_results"] += noncanon; noncanon = 0; }
    void boundary() {
        if (!C.begin("boundary " + tn(F, W, S))) return;
        auto vs = vals(F, W, S, C.thorough ? 2 : 1);
#ifdef MC_SAN
        thin(vs, C.thorough ? 60 : 20);
#else
        thin(vs, C.thorough ? 120 : 44);
#endif
        for (auto &v : vs) reach(enc<T>(v));
        if (F) { reach(enc<T>(ref::allx(W, S))); reach(enc<T>(ref::allz(W, S))); }
        size_t cap = states.size() + 200;  // residue found is explored further
        for (size_t i = 0; i < states.size() && i < cap; i++) for (size_t j = 0; j <= i; j++) for (auto &a : acts) {
            if (a.unary && j != i) continue;
            if (a.to > a.from && i != j && (i * 7 + j) % 5 && !C.thorough) continue;
            apply(a, i, j, false);
            if (i != j) apply(a, j, i, false);
        }
        finish("boundary_raw_states");
    }
};
template <int K, bool F, int W, bool S, bool CL> void go() {
    if constexpr (K % NSHARD == SHARD) { auto e = std::make_unique<EX<VT<F, W, S>>>(); if (CL) e->closure(); else e->boundary(); }
}
template <int K, int W, bool CL> void four() { go<K, true, W, false, CL>(); go<K + 1, true, W, true, CL>(); go<K + 2, false, W, false, CL>(); go<K + 3, false, W, true, CL>(); }
void mc::run() {
#if defined(MC_SAN) && !defined(MC_THOROUGH)
    four<0, 1, true>(); four<4, 33, false>(); four<8, 64, false>(); four<12, 129, false>();
    return;
#endif
    four<0, 1, true>(); four<4, 2, true>(); four<8, 3, true>(); go<12, false, 5, false, true>(); go<13, false, 5, true, true>();
    four<14, 7, false>(); four<18, 8, false>(); four<22, 9, false>(); four<26, 31, false>(); four<30, 33, false>(); four<34, 63, false>(); four<38, 64, false>(); four<42, 65, false>(); four<46, 100, false>(); four<50, 128, false>(); four<54, 129, false>();
#ifdef MC_THOROUGH
    four<58, 16, false>(); four<62, 17, false>(); four<66, 32, false>(); four<70, 127, false>(); four<74, 191, false>(); four<78, 192, false>(); four<82, 193, false>(); four<86, 300, false>(); go<90, true, 4, false, true>(); go<91, true, 4, true, true>(); go<92, false, 7, false, true>(); go<93, false, 7, true, true>();
#endif
}
