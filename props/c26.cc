// declared bounds only name the bits: no operator, comparison, conversion or text depends on them
#include "ops.hh"
#include "ranges.hh"
#include <logic/array.hh>
using namespace mc;
// the I-th way to declare W bits
template <bool F, int W, bool S, int I> struct Decl {
    static constexpr int m = I == 0 ? W - 1 : I == 1 ? W + 2 : I == 2 ? W - 4 : I == 3 ? 0 : 5, l = I == 0 ? 0 : I == 1 ? 3 : I == 2 ? -3 : I == 3 ? W - 1 : W + 4;
    using type = RT<F, m, l, S>;
};
// W bits as a packed array of the narrowest elements that fit
constexpr int divisor(int w) { for (int d = 2; d < w; d++) if (w % d == 0) return d; return w; }
template <bool F, int W, bool S> struct Decl<F, W, S, 5> {
    static constexpr int d = divisor(W);
    using type = logic::packed_array<VT<F, d, S>, W / d - 1, 0>;
};
inline std::string dn(int W, int I) { return I == 0 ? "[W-1:0]" : I == 1 ? "[W+2:3]" : I == 2 ? "[W-4:-3]" : I == 3 ? "[0:W-1]" : I == 5 ? " as a packed array" : "[5:W+4]"; }
inline RV text(const std::string &s) { u64 h = 0xcbf29ce484222325ull ^ s.size(); for (char c : s) h = (h ^ (unsigned char)c) * 0x100000001b3ull; return RV(64, false, h); }  // (compared only)
// further observations of one vector
template <class T> std::vector<Op1> more1() {
    std::vector<Op1> o;
#define MC_OP(nm, ...) o.push_back({nm, fn1<T>([](const auto &a) -> decltype(__VA_ARGS__) { return __VA_ARGS__; })});
    MC_OP("str(b)", text(a.str("b"))) MC_OP("str(x)", text(a.str("x"))) MC_OP("str(o)", text(a.str("o"))) MC_OP("str(s)", text(a.str("s")))
    if (T::size <= 128) { MC_OP("str(d)", text(a.str("d"))) }
    MC_OP("to_uint64", RV(64, false, (u64)a.to_uint64())) MC_OP("to_num", RV(64, false, (u64)(int64_t)a.to_num()))
#undef MC_OP
    auto put = [&](const char *n, auto f) { o.push_back({n, f}); };
    put("++", +[](const RV &v) { T a = enc<T>(v); ++a; return dec(a); });
    put("--", +[](const RV &v) { T a = enc<T>(v); --a; return dec(a); });
    if constexpr (!requires { T::base_size; }) put("a++", +[](const RV &v) { T a = enc<T>(v); return dec(a++); }); else o.push_back({"a++", nullptr});
    constexpr bool F = T::is_4state, S = T::is_signed;
    constexpr int W = T::size;
    if constexpr (!requires { T::base_size; }) {  // (packed arrays are not converted)
    put("assigned to 3 bits", +[](const RV &v) { VT<F, 3, S> t; t = enc<T>(v); return dec(t); });
    put("assigned to 77 bits", +[](const RV &v) { VT<F, 77, true> t; t = enc<T>(v); return dec(t); });
    put("assigned to [3:80]", +[](const RV &v) { RT<F, 3, 80, false> t; t = enc<T>(v); return dec(t); });
    put("assigned from 77 bits", +[](const RV &v) { T t; t = enc<VT<F, 77, true>>([&] { RV k(77, true); for (int i = 0; i < 77; i++) k.setbit(i, v.bit(i % W)); return k; }()); return dec(t); });
    put("assigned from 5 bits", +[](const RV &v) { RV k(5, true); for (int i = 0; i < 5 && i < W; i++) k.setbit(i, v.bit(i)); T t; t = enc<VT<F, 5, true>>(k); return dec(t); });
    put("assigned int", +[](const RV &v) { T t; t = (int)(v.v[0] | 0x80000000u); return dec(t); });
    } else for (int i = 0; i < 6; i++) o.push_back({"", nullptr});
    put("unpacked", +[](const RV &v) {
        if constexpr (W > 1) {
            constexpr int lo = W / 3 + 1 < W ? W / 3 + 1 : W - 1;
            VT<F, W - lo, false> h; VT<F, lo, false> l; enc<T>(v).unpack(h, l); return dec(h.concat(l));
        } else return v; });
    put("parsed", +[](const RV &v) { T t(std::string_view("'b" + v.bin())); return dec(t); });
    put("parsed raw", +[](const RV &) { T t(std::string_view("abcdefghijklmn\xff\x80")); return dec(t); });
    put("default", +[](const RV &) { T t; return dec(t); });
    return o;
}
template <class A, class B> std::vector<Op2> more2() {
    std::vector<Op2> o;
#define X(nm, op) if constexpr (requires(A &a, const B &b) { a op b; }) o.push_back({nm, +[](const RV &x, const RV &y) { A a = enc<A>(x); const B b = enc<B>(y); a op b; return dec(a); }}); else o.push_back({nm, nullptr});
    X("&=", &=) X("|=", |=) X("^=", ^=) X("<<=", <<=) X(">>=", >>=) X("=", =)
#undef X
    if constexpr (std::is_constructible_v<A, const B &>) o.push_back({"converted", +[](const RV &, const RV &y) { const B b = enc<B>(y); A a(b); return dec(a); }}); else o.push_back({"converted", nullptr});
    return o;
}
inline bool agree(const RV &a, const RV &b) { return a.w == b.w && a.sg == b.sg && a.same(b); }
void walk1(const std::string &g, const std::vector<Op1> &p, const std::vector<Op1> &q, const std::vector<RV> &as) {
    if (!C.begin(g)) return;
    C.states += as.size();
    for (size_t i = 0; i < p.size(); i++) if (p[i].f && q[i].f) for (auto &a : as) {
        if (!C.next(&a, nullptr, nullptr, p[i].name)) continue;
        RV x = p[i].f(a), y = q[i].f(a);
        C.outcome(x.hash());
        if (!agree(x, y)) C.fail("gives " + y.bin() + (y.sg ? "(signed)" : "") + ", declared [W-1:0] it gives " + x.bin() + (x.sg ? "(signed)" : ""));
    }
}
void walk2(const std::string &g, const std::vector<Op2> &p, const std::vector<Op2> &q, const std::vector<RV> &as, const std::vector<RV> &bs, const std::vector<RV> &sh, bool movedA) {
    if (!C.begin(g)) return;
    C.states += as.size() + bs.size();
    for (size_t i = 0; i < p.size(); i++) if (p[i].f && q[i].f) {
        std::string n = p[i].name;
        if (n == "get" && movedA) continue;  // an index names a bit, which does depend on the bounds
        bool s = n[0] == 'a' || n.substr(0, 2) == "<<" || n.substr(0, 2) == ">>" || n == "get";
        for (auto &a : as) for (auto &b : s ? sh : bs) {
            if (!C.next(&a, &b, nullptr, p[i].name)) continue;
            RV x = p[i].f(a, b), y = q[i].f(a, b);
            C.outcome(x.hash());
            if (!agree(x, y)) C.fail("gives " + y.bin() + (y.sg ? "(signed)" : "") + ", declared [W-1:0] it gives " + x.bin() + (x.sg ? "(signed)" : ""));
        }
    }
}
template <class T> std::vector<Op1> t1() { auto o = ops1<T>(); auto m = more1<T>(); o.insert(o.end(), m.begin(), m.end()); return o; }
template <class A, class B> std::vector<Op2> t2() { auto o = ops2<A, B>(); auto m = more2<A, B>(); o.insert(o.end(), m.begin(), m.end()); return o; }
template <bool F, int W, bool S> struct ONE {
    template <int I> static void with(const std::vector<Op1> &p, const std::vector<RV> &as) { walk1(tn(F, W, S) + dn(W, I), p, t1<typename Decl<F, W, S, I>::type>(), as); }
    static void run() {
        auto as = vals(F, W, S, 1);
        thin(as, C.thorough ? 400 : 120);
        auto p = t1<typename Decl<F, W, S, 0>::type>();
        with<1>(p, as); with<2>(p, as); with<3>(p, as); with<4>(p, as); with<5>(p, as);
    }
};
struct U { template <int W, bool S> void operator()() { ONE<true, W, S>::run(); ONE<false, W, S>::run(); } };
template <bool F, int W1, bool S1, int W2, bool S2> struct TWO {
    template <int I, int J> static void with(const std::vector<Op2> &p, const std::vector<RV> &as, const std::vector<RV> &bs, const std::vector<RV> &sh) {
        walk2(tn(F, W1, S1) + dn(W1, I) + "," + tn(F, W2, S2) + dn(W2, J), p, t2<typename Decl<F, W1, S1, I>::type, typename Decl<F, W2, S2, J>::type>(), as, bs, sh, I != 0);
    }
    static void run() {
        auto as = vals(F, W1, S1, 1), bs = vals(F, W2, S2, 1);
        thin(as, C.thorough ? 80 : 30); thin(bs, C.thorough ? 80 : 30);
        auto sh = bs;
        for (u64 n = 0; n < (u64)W1 + 3; n++) if (W1 < 12 || n < 2 || n % 64 < 1 || n % 64 > 62 || n + 3 > (u64)W1) { RV r(W2, S2, n); if (r.v[0] == n) sh.push_back(r); }
        auto p = t2<typename Decl<F, W1, S1, 0>::type, typename Decl<F, W2, S2, 0>::type>();
        with<1, 0>(p, as, bs, sh); with<3, 0>(p, as, bs, sh); with<0, 1>(p, as, bs, sh); with<0, 4>(p, as, bs, sh); with<2, 4>(p, as, bs, sh); with<4, 2>(p, as, bs, sh); with<3, 3>(p, as, bs, sh); with<5, 0>(p, as, bs, sh);
    }
};
template <int K, int W1, int W2> void both() {
    if constexpr ((4 * K) % NSHARD == SHARD) TWO<true, W1, (K & 1) != 0, W2, (K & 2) != 0>::run();
    if constexpr ((4 * K + 1) % NSHARD == SHARD) TWO<false, W1, (K & 1) != 0, W2, (K & 2) != 0>::run();
    if constexpr ((4 * K + 2) % NSHARD == SHARD) TWO<true, W1, true, W2, (K & 1) == 0>::run();
    if constexpr ((4 * K + 3) % NSHARD == SHARD) TWO<false, W1, true, W2, (K & 1) == 0>::run();
}
void mc::run() {
    both<0, 8, 8>(); both<1, 1, 1>(); both<2, 9, 9>(); both<3, 33, 33>(); both<4, 64, 64>(); both<5, 65, 65>(); both<6, 130, 130>(); both<7, 8, 33>(); both<8, 64, 65>(); both<9, 65, 8>(); both<10, 129, 64>(); both<11, 1, 9>(); both<12, 32, 7>();
#ifdef MC_THOROUGH
    both<13, 16, 16>(); both<14, 31, 31>(); both<15, 63, 63>(); both<16, 128, 128>(); both<17, 192, 192>(); both<18, 200, 200>(); both<19, 63, 64>(); both<20, 128, 129>(); both<21, 200, 3>(); both<22, 3, 200>(); both<23, 65, 1>(); both<24, 300, 300>(); both<25, 17, 64>();
#endif
    each_width(U{});
}
