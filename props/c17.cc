// numeric read-out
#include "pairs.hh"
using namespace mc;
template <bool F, int W, bool S> void one() {
    using T = VT<F, W, S>;
    if (!C.begin(tn(F, W, S))) return;
    auto vs = W <= 8 ? vals(F, W, S, 3) : W <= 16 && !F ? sg(all2(W), S) : vals(F, W, S, C.thorough ? 3 : 2);
    if (F) for (auto &k : corner2(W, W > 140 && !C.thorough ? 0 : 1)) for (int p = 0; p < W; p++) for (int t : {2, 3}) { RV r = k; r.sg = S; r.setbit(p, t); vs.push_back(r); }  // a single unknown bit anywhere
    C.states += vs.size();
    for (auto &v : vs) {
        const bool k = v.known();
        const u64 e = k ? ref::resize(v, 64, S, S).v[0] : 0;
        auto read = [&](const T &t, const char *n) {
            if (C.next(&v, nullptr, nullptr, n)) {
                C.equ(t.to_uint64(), e, "to_uint64");
                if constexpr (W <= 64) {
                    auto r = t.to_num();
                    static_assert(std::is_signed_v<decltype(r)> == S && sizeof(r) * 8 >= W);
                    C.equ((u64)r, e, "to_num");
                }
                if constexpr (!F) { u64 c = 0; for (int i = 0; i < W; i++) c += v.bit(i); C.equ(t.popcount(), c, "popcount"); }
            }
        };
        const T t = enc<T>(v);
        read(t, "stored");
        // the same bits arrived at in other ways
        if (v.w > 1 && v.w < 70) {
            auto tw = t.template extend<(u64)W + 5>();
            T n = enc<T>(ref::RV(W, S, 0));
            n = tw;
            read(n, "extended and truncated");
        }
        if constexpr (F) { read(T(std::string_view("'b" + v.bin())), "parsed"); }
        if (v.known()) {
            RV m = ref::neg(v);
            m.sg = S;
            T s = -enc<T>(m);
            read(s, "negated");
            RV o = v;
            for (int i = 0; i < W; i++) o.setbit(i, !v.bit(i));
            T q = enc<T>(o);
            if constexpr (W > 1) { q ^= enc<T>(ref::conv(RV(1, true, 1), W, S)); read(q, "inverted"); }
        } else {
            T q = enc<T>(v);
            T z = enc<T>(ref::allz(W, S));
            q = z;
            for (int i = 0; i < W; i++) if constexpr (F) q.set(i, enc<VT<true, 1, false>>(ref::onebit(v.bit(i))));
            read(q, "set bit by bit");
        }
    }
}
struct L_ { template <int W, bool S> void operator()() { one<true, W, S>(); one<false, W, S>(); } };
// every width
struct Rd { int w; bool four, sg; u64 (*u)(const RV &), (*n)(const RV &); };
std::vector<Rd> reads;
struct R_ {
    template <bool F, int W, bool S> void put() {
        using T = VT<F, W, S>;
        Rd r{W, F, S, [](const RV &v) -> u64 { return enc<T>(v).to_uint64(); }, nullptr};
        if constexpr (W <= 64) r.n = [](const RV &v) -> u64 { return (u64)enc<T>(v).to_num(); };
        reads.push_back(r);
    }
    template <int W, bool S> void operator()() { put<true, W, S>(); put<false, W, S>(); }
};
void every() {
    every_width(R_{});
    for (auto &t : reads) {
        if (!C.begin("every width: " + tn(t.four, t.w, t.sg))) continue;
        auto vs = digit_alphabet(t.four, t.w, t.sg);
        C.states += vs.size();
        for (auto &v : vs) {
            if (!C.next(&v, nullptr, nullptr, "every width")) continue;
            const u64 e = v.known() ? ref::resize(v, 64, t.sg, t.sg).v[0] : 0;
            C.equ(t.u(v), e, "to_uint64");
            if (t.n) C.equ(t.n(v), e, "to_num");
        }
    }
}
void mc::run() { each_width(L_{}); every(); }
