// packed arrays
#include "pairs.hh"
#include "ranges.hh"
#include "text.hh"
#include <logic/array.hh>
#include <deque>
#include <map>
using namespace mc;
template <bool F, int W, bool S> struct EL { using type = VT<F, W, S>; static constexpr int w = W; static constexpr bool f = F; static std::string name() { return tn(F, W, S); } };
template <class T, int M, int L> struct NEST { using type = logic::packed_array<typename T::type, M, L>; static constexpr int w = T::w * (absd(M, L) + 1); static constexpr bool f = T::f; static std::string name() { return T::name() + "[" + std::to_string(M) + ":" + std::to_string(L) + "]"; } };
template <class E, int M, int L> struct ARR {
    using T = logic::packed_array<typename E::type, M, L>;
    static constexpr int W = E::w, N = absd(M, L) + 1, lo = std::min(M, L), hi = std::max(M, L);
    static constexpr bool F = E::f, S = E::type::is_signed;
    static_assert(T::size == W * N);
    std::string nm = E::name() + "[" + std::to_string(M) + ":" + std::to_string(L) + "]";
    std::vector<RV> states;
    ARR() {
        // every element different; all elements the same; boundary patterns of the whole
        for (int k = 0; k < 3; k++) {
            RV r(W * N, S);
            u64 s = 0x9e3779b97f4a7c15ull + k;
            for (int i = 0; i < W * N; i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; r.setbit(i, F && k ? (s >> 20) & 3 : (s >> 20) & 1); }
            states.push_back(r);
        }
        for (auto &v : vals(F, W * N, S, 0)) states.push_back(v);
        if (W * N > 4 && states.size() > (C.thorough ? 60 : 24)) {
            std::vector<RV> t;
            size_t want = C.thorough ? 60 : 24;
            for (size_t i = 0; i < want; i++) t.push_back(states[i < 8 ? i : 8 + (i - 8) * (states.size() - 8) / (want - 8)]);
            states = t;
        }
        if (F) { states.push_back(ref::allx(W * N, S)); states.push_back(ref::allz(W * N, S)); }
    }
    static bool in(const RV &i, long &k) {
        if (!i.known()) return false;
        // exact value of the index
        if (i.sg && i.msb()) {
            for (int b = 62; b < i.w; b++) if (!i.bit(b)) return false;
            k = (long)ref::resize(i, 64, true, true).v[0];
        } else {
            for (int b = 62; b < i.w; b++) if (i.bit(b)) return false;
            k = (long)i.v[0];
        }
        return k >= lo && k <= hi;
    }
    static RV elem(const RV &a, long k, int n = 1) { RV r(W * n, false); for (int b = 0; b < W * n; b++) r.setbit(b, a.bit((k - lo) * W + b)); return r; }
    static RV put(const RV &a, long k, const RV &v, int n = 1) { RV r = a; for (int b = 0; b < W * n; b++) r.setbit((k - lo) * W + b, b < v.w ? v.bit(b) : 0); return r; }
    template <class I> static std::vector<RV> indices() {
        constexpr int IW = I::size;
        std::vector<RV> o;
        std::set<RV> seen;
        auto add = [&](long v) {
            RV r(IW, I::is_signed);
            for (int i = 0; i < ref::NW; i++) r.v[i] = i ? (v < 0 ? ~0ull : 0) : (u64)v;
            r.trim();
            push(o, seen, r);
        };
        if (IW <= 5) for (int v = 0; v < (1 << IW); v++) add(v);
        for (long k = lo - 2; k <= hi + 2; k++) if (N < 20 || k < lo + 3 || k > hi - 3 || C.thorough) add(k);
        for (long k = lo; k <= hi; k += std::max(1, N / 3)) for (int b : {5, 8, 16, 31, 32, 33, 62, 63, 64, 70, 98}) if (b < IW) { RV r(IW, I::is_signed, (u64)k); if (k < 0) for (int i = 1; i < ref::NW; i++) r.v[i] = ~0ull; r.trim(); r.setbit(b, !r.bit(b)); push(o, seen, r); }
        for (long v : {(long)N * W - 1, (long)N * W, (long)N * W + 1, (long)N, (long)-N, -1l, -2l, 2147483647l, -2147483648l, 4294967295l, (long)(1l << 32) / W, (long)(1l << 31) / W, (long)(1l << 32) / W + 1, (long)(1ull << 63) / W}) add(v);
        if (I::is_4state) for (int b = 0; b < IW; b++) for (int t : {2, 3}) for (long k : {(long)lo, (long)hi}) if (b < 4 || b == IW - 1 || b % 32 == 0) { RV r(IW, I::is_signed, (u64)k); r.setbit(b, t); push(o, seen, r); }
        push(o, seen, ref::allx(IW)); push(o, seen, ref::allz(IW));
        for (auto &r : o) r.sg = I::is_signed;
        return o;
    }
    template <class I> void reads() {
        if (!C.begin(nm + " read by " + tn(I::is_4state, I::size, I::is_signed))) return;
        auto is = indices<I>();
        C.states += states.size();
        for (auto &a : states) {
            const T t = enc<T>(a);
            for (auto &i : is) {
                if (!C.next(&a, &i, nullptr, "")) continue;
                long k;
                RV e = in(i, k) ? elem(a, k) : F ? ref::allx(W) : RV(W, false);
                auto g = t[enc<I>(i)];
                C.eqt(g, e);
                if (!dec(t).same(a)) C.fail("reading changed the array");
            }
        }
    }
    template <class I, class V> void writes() {
        if (!C.begin(nm + " written by " + tn(I::is_4state, I::size, I::is_signed) + " with " + tn(F, V::size, V::is_signed))) return;
        auto is = indices<I>();
        auto vs = vals(F, V::size, V::is_signed, 0);
        size_t want = C.thorough ? 40 : 10;
        if (vs.size() > want) { std::vector<RV> t; for (size_t i = 0; i < want; i++) t.push_back(vs[i * vs.size() / want]); vs = t; vs.push_back(vs.back()); if (F) vs.push_back(ref::allz(V::size, V::is_signed)); }
        size_t n = 0;
        for (auto &a : states) {
            C.states++;
            for (auto &i : is) for (auto &v : vs) {
                long k;
                bool w = in(i, k);
                // each out-of-range index against one source, the source rotating
                if (!w && &v != &vs[n % vs.size()]) continue;
                if (!C.next(&a, &i, &v, "")) continue;
                T t = enc<T>(a);
                const V s = enc<V>(v);
                t.update(enc<I>(i), s);
                RV e = w ? put(a, k, v) : a;
                if (!C.eq(t, e)) continue;
                if (w) C.eqt(t[enc<I>(i)], elem(e, k), "read back");
                if (!dec(s).same(v)) C.fail("the source changed");
            }
            n++;
        }
    }
    template <int H, int K> void fixed() {
        if (!C.begin(nm + " <" + std::to_string(H) + "," + std::to_string(K) + ">")) return;
        constexpr int n = absd(H, K) + 1, at = std::min(H, K);
        using V = VT<F, W * n, false>;
        using V2 = VT<F, W * n + 5, true>;
        using V3 = VT<F, (W * n > 2 ? W * n - 2 : 1), false>;
        auto some = [&](int w) { auto s = vals(F, w, false, 0); if (s.size() > 9) { std::vector<RV> t; for (int i = 0; i < 9; i++) t.push_back(s[i * s.size() / 9]); s = t; } if (F) { s.push_back(ref::allz(w)); s.push_back(ref::allx(w)); } return s; };
        for (auto &a : states) {
            C.states++;
            const T t = enc<T>(a);
            if (C.next(&a, nullptr, nullptr, "slice")) { C.eqt(t.template slice_array<H, K>(), elem(a, at, n)); if (!dec(t).same(a)) C.fail("slicing changed the array"); }
            auto up = [&]<class VV>(VV *) {
                for (auto v : some(VV::size)) { v.sg = VV::is_signed; if (C.next(&a, &v, nullptr, "update")) { T u = enc<T>(a); VV s = enc<VV>(v); u.template update<H, K>(s); C.eq(u, put(a, at, v, n)); } }
            };
            up((V *)nullptr); up((V2 *)nullptr); up((V3 *)nullptr);
        }
    }
    void all_fixed() {
        if constexpr (N <= 4) {
            times<N * N>([&]<int I>() { fixed<lo + I / N, lo + I % N>(); });
        } else {
            fixed<hi, hi>(); fixed<lo, lo>(); fixed<hi, lo>(); fixed<lo, hi>(); fixed<lo + 1, lo>(); fixed<lo + 1, hi - 1>(); fixed<hi - 1, lo + 1>(); fixed<lo + N / 2, lo + N / 2>(); fixed<lo + N / 2, lo + 1>(); fixed<hi, lo + N / 2>();
        }
    }
    void whole() {
        if (!C.begin(nm + " whole")) return;
        if (C.next(nullptr, nullptr, nullptr, "default")) { T t; C.eq(t, F ? ref::allx(W * N, S) : RV(W * N, S)); }
        for (auto &a : states) {
            if (C.next(&a, nullptr, nullptr, "text")) { const T t = enc<T>(a); C.eqs(t.str(), a.bin()); }
            std::string cat;
            if (C.next(&a, nullptr, nullptr, "concatenation of the elements")) {
                const T t = enc<T>(a);
                for (int k = hi; k >= lo; k--) cat += t[logic::logic<31, 0, true>((int32_t)k)].str();
                C.eqs(cat, a.bin());
            }
            if (C.next(&a, nullptr, nullptr, "from text")) { T t(std::string_view("'b" + a.bin())); C.eq(t, a); }
            if (a.known() && C.next(&a, nullptr, nullptr, "from an integer")) { T t((uint64_t)a.v[0]); C.eq(t, ref::resize(RV(64, false, a.v[0]), W * N, false, S)); }
            if (C.next(&a, nullptr, nullptr, "copy")) { const T t = enc<T>(a); T u = t; T v; v = u; C.eq(v, a); }
        }
    }
    // every state of a tiny array reachable by element and slice writes, every read in each
    void closure() {
        if constexpr (W * N <= (F ? 6 : 10)) {
            if (!C.begin(nm + " closure")) return;
            using I = logic::logic<3, 0, true>;
            std::set<RV> seen;
            std::deque<RV> q;
            auto reach = [&](const RV &r) { if (seen.insert(r).second) q.push_back(r); };
            { T t; reach(dec(t)); }
            auto vs = vals(F, W, false, 3);
            while (!q.empty()) {
                RV a = q.front();
                q.pop_front();
                for (int k = -8; k < 8; k++) for (int x = 0; x < 2; x++) {
                    RV i(4, true, (u64)k);
                    if (x) i.setbit(3, 2);
                    long kk;
                    bool w = in(i, kk);
                    if (C.next(&a, &i, nullptr, "read")) { const T t = enc<T>(a); C.eqt(t[enc<I>(i)], w ? elem(a, kk) : F ? ref::allx(W) : RV(W, false)); }
                    for (auto &v : vs) {
                        RV e = w ? put(a, kk, v) : a;
                        if (C.next(&a, &i, &v, "write")) { T t = enc<T>(a); t.update(enc<I>(i), enc<VT<F, W, false>>(v)); C.eq(t, e); }
                        reach(e);
                    }
                }
            }
            C.states += seen.size();
            C.extra["closure_states"] += seen.size();
        }
    }
    void run() {
        reads<logic::logic<31, 0>>(); reads<logic::logic<31, 0, true>>(); reads<logic::logic<4, 0>>(); reads<logic::logic<4, 0, true>>();
        reads<logic::logic<0, 0>>(); reads<logic::logic<63, 0>>(); reads<logic::logic<63, 0, true>>(); reads<logic::logic<99, 0>>(); reads<logic::logic<99, 0, true>>();
        writes<logic::logic<31, 0>, VT<F, W, false>>(); writes<logic::logic<31, 0, true>, VT<F, W, true>>(); writes<logic::logic<4, 0>, VT<F, W + 3, false>>();
        writes<logic::logic<4, 0, true>, VT<F, 32, true>>(); writes<logic::logic<63, 0, true>, VT<F, (W > 1 ? W - 1 : 1), false>>(); writes<logic::logic<99, 0>, VT<F, W, false>>();
        writes<logic::logic<99, 0, true>, VT<F, 68, false>>(); writes<logic::logic<0, 0>, VT<F, W, true>>();
        all_fixed();
        whole();
        closure();
    }
};
template <int K, class E, int M, int L> void one() { if constexpr (K % NSHARD == SHARD) { ARR<E, M, L>{}.run(); } }
void mc::run() {
#if defined(MC_SAN) && !defined(MC_THOROUGH)
    one<0, EL<true, 8, false>, 3, 0>(); one<1, EL<false, 3, true>, 2, 5>(); one<2, EL<true, 5, true>, 0, 3>(); one<3, EL<false, 1, false>, 7, 0>();
    one<4, EL<true, 33, false>, 3, 0>(); one<5, EL<false, 65, false>, 4, 2>(); one<6, EL<true, 65, false>, 0, 2>(); one<7, EL<true, 64, false>, 2, 0>();
    one<8, NEST<EL<false, 16, false>, 3, 1>, 4, 3>(); one<9, NEST<NEST<EL<true, 2, false>, 1, 0>, 0, 1>, 2, 0>(); one<10, EL<true, 1, true>, 70, 3>();
    return;
#endif
    one<0, EL<true, 8, false>, 3, 0>(); one<1, EL<false, 8, false>, 3, 0>(); one<2, EL<true, 16, false>, 9, 0>(); one<3, EL<false, 16, false>, 9, 0>();
    one<4, EL<true, 3, false>, 5, 2>(); one<5, EL<false, 3, true>, 2, 5>(); one<6, EL<true, 5, true>, 0, 3>(); one<7, EL<false, 1, false>, 7, 0>();
    one<8, EL<true, 1, false>, 2, 0>(); one<9, EL<true, 2, false>, 1, -1>(); one<10, EL<false, 7, false>, -2, 1>(); one<11, EL<true, 33, false>, 3, 0>();
    one<12, EL<true, 64, false>, 2, 0>(); one<13, EL<false, 65, false>, 4, 2>(); one<14, EL<true, 65, false>, 0, 2>(); one<15, EL<false, 64, true>, 3, 1>();
    one<16, NEST<EL<true, 4, false>, 3, 0>, 1, 0>(); one<17, NEST<EL<false, 16, false>, 3, 1>, 4, 3>(); one<18, NEST<NEST<EL<true, 2, false>, 1, 0>, 0, 1>, 2, 0>();
    one<19, EL<true, 8, false>, 4, 4>(); one<20, EL<false, 9, false>, 0, 0>(); one<21, EL<true, 1, true>, 70, 3>(); one<22, EL<false, 1, false>, 0, 64>(); one<23, EL<true, 31, false>, -3, -9>();
    one<24, EL<false, 1, false>, 3, -1>(); one<25, EL<false, 2, true>, 5, 3>(); one<26, EL<true, 3, false>, 3, 2>(); one<27, EL<true, 16, true>, 15, 8>();
#ifdef MC_THOROUGH
    one<28, EL<true, 100, false>, 2, 0>(); one<29, EL<true, 12, false>, 19, 0>(); one<30, EL<false, 32, false>, 7, 0>(); one<31, EL<true, 63, true>, 1, 4>(); one<32, EL<true, 7, false>, 40, 11>(); one<33, EL<false, 13, true>, -10, 5>();
    one<34, NEST<EL<true, 33, false>, 0, 1>, 1, 3>(); one<35, EL<true, 2, false>, 100, 90>(); one<36, EL<false, 300, false>, 1, 0>(); one<37, EL<true, 1, false>, 2, 3>(); one<38, EL<true, 6, false>, 2, 2>(); one<39, EL<false, 5, false>, 1, 2>();
#endif
}
