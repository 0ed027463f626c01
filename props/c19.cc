// unpacked arrays
#include "pairs.hh"
#include "ranges.hh"
#include <logic/array.hh>
#include <deque>
using namespace mc;
template <bool F, int W, bool S> struct EL { using type = VT<F, W, S>; static constexpr int w = W; static constexpr bool f = F; static std::string name() { return tn(F, W, S); } };
template <class E, int M, int L> struct ARR {
    using V = typename E::type;
    using T = logic::unpacked_array<V, M, L>;
    static constexpr int W = E::w, N = absd(M, L) + 1, lo = std::min(M, L), hi = std::max(M, L);
    static constexpr bool F = E::f, S = V::is_signed;
    std::string nm = E::name() + "[" + std::to_string(M) + ":" + std::to_string(L) + "]";
    using ST = std::vector<RV>;  // element by declared index - lo
    static RV dflt() { return F ? ref::allx(W, S) : RV(W, S); }
    // the whole array is only reached through update and operator[]
    template <int K = lo> static void store(T &t, int idx, const V &v) {
        if constexpr (K <= hi) { if (idx == K) t.template update<K>(v); else store<K + 1>(t, idx, v); }
    }
    static T build(const ST &s) { T t; for (int k = lo; k <= hi; k++) store(t, k, enc<V>(s[k - lo])); return t; }
    static std::vector<int> idxs() {
        std::vector<int> o;
        for (int k = lo - 5; k <= hi + 5; k++) o.push_back(k);
        for (int k : {2147483647, -2147483647 - 1, 2147483646, 1 << 16, -(1 << 16), lo + 256, lo - 256, hi + 65536, hi + N, lo - N, lo + 2 * N, (int)0x80000000u + lo, (int)0x40000000}) o.push_back(k);
        return o;
    }
    static void check(const T &t, const ST &s) {
        for (int k : idxs()) if (!C.eq(t[k], k >= lo && k <= hi ? s[k - lo] : dflt(), ("element " + std::to_string(k)).c_str())) return;
    }
    template <int K> void one_store(const std::vector<ST> &states, const std::vector<RV> &vs) {
        if (!C.begin(nm + " store to " + std::to_string(K))) return;
        for (auto &s : states) for (auto &v : vs) {
            if (!C.next(&s[0], &v, nullptr, "")) continue;
            T t = build(s);
            const V c = enc<V>(v);
            t.template update<K>(c);
            ST e = s;
            if (K >= lo && K <= hi) e[K - lo] = v;
            check(t, e);
            if (!dec(c).same(v)) C.fail("the source changed");
        }
        // sources of other widths and signs convert as in an assignment
        auto other = [&]<class O>(O *) {
            for (auto v : vals(F, O::size, O::is_signed, 0)) {
                if (!C.next(&states[0][0], &v, nullptr, "converted")) continue;
                T t = build(states[0]);
                t.template update<K>(enc<O>(v));
                ST e = states[0];
                if (K >= lo && K <= hi) e[K - lo] = ref::conv(v, W, S);
                check(t, e);
            }
        };
        other((VT<F, W + 2, true> *)nullptr); other((VT<F, (W > 1 ? W - 1 : 1), true> *)nullptr); other((VT<F, 68, false> *)nullptr);
    }
    void run() {
        std::vector<ST> states;
        auto vs = vals(F, W, S, 0);
        size_t want = C.thorough ? 40 : 14;
        if (vs.size() > want) { std::vector<RV> t; for (size_t i = 0; i < want; i++) t.push_back(vs[i * vs.size() / want]); if (F) { t.push_back(ref::allz(W, S)); t.push_back(ref::allx(W, S)); } vs = t; }
        for (size_t k = 0; k < vs.size(); k++) { ST s, u; for (int i = 0; i < N; i++) { s.push_back(vs[(k + i * 3) % vs.size()]); u.push_back(vs[k]); } states.push_back(s); states.push_back(u); }
        C.states += states.size();
        // the first out-of-range read of a program, whatever has been stored before it and wherever it reads
        if (C.begin(nm + " first use")) for (size_t k = 0; k < states.size(); k += std::max<size_t>(1, states.size() / 6)) for (int i : {lo - 1, hi + 1, lo - 64, 2147483647, -2147483647 - 1}) {
            if (!C.next(&states[k][0], nullptr, nullptr, "first out-of-range read")) continue;
            fresh([&] {
                const T t = build(states[k]);
                C.eq(t[i], dflt(), "read outside");
                const T u;
                C.eq(u[hi + 1], dflt(), "read of another array");
                check(t, states[k]);
                check(u, ST(N, dflt()));
            });
        }
        if (C.begin(nm + " read")) {
            if (C.next(nullptr, nullptr, nullptr, "default")) { T t; check(t, ST(N, dflt())); }
            for (auto &s : states) {
                if (C.next(&s[0], nullptr, nullptr, "")) { const T t = build(s); check(t, s); check(t, s); }
                if (C.next(&s[0], nullptr, nullptr, "copied")) { const T t = build(s); T u = t; store(u, lo, enc<V>(dflt())); check(t, s); ST e = s; e[0] = dflt(); check(u, e); }
                // a reference obtained for an undeclared index stays the default whatever is stored meanwhile
                if (C.next(&s[0], nullptr, nullptr, "undeclared, then stores")) { T t = build(s); const V &r = t[hi + 1]; for (int k = lo; k <= hi; k++) store(t, k, enc<V>(vs[1])); C.eq(r, dflt()); C.eq(t[lo - 1], dflt()); }
            }
        }
        std::vector<ST> few(states.begin(), states.begin() + std::min<size_t>(states.size(), 10));
        if constexpr (N <= 10) times<N + 8>([&]<int I>() { one_store<lo - 4 + I>(few, vs); });
        else { one_store<lo - 1>(few, vs); one_store<lo>(few, vs); one_store<lo + 1>(few, vs); one_store<lo + N / 2>(few, vs); one_store<hi - 1>(few, vs); one_store<hi>(few, vs); one_store<hi + 1>(few, vs); one_store<N>(few, vs); one_store<N - 1>(few, vs); one_store<0>(few, vs); one_store<-1>(few, vs); }
        one_store<2147483647>(few, vs); one_store<-2147483647 - 1>(few, vs); one_store<hi + 256>(few, vs); one_store<lo - 65536>(few, vs);
        if constexpr ((F ? 4 : 2) * W * N <= 16) {  // every reachable state of a tiny array
            if (!C.begin(nm + " closure")) return;
            auto av = vals(F, W, S, 3);
            std::set<ST> seen;
            std::deque<ST> q;
            auto reach = [&](const ST &s) { if (seen.insert(s).second) q.push_back(s); };
            reach(ST(N, dflt()));
            while (!q.empty()) {
                ST s = q.front();
                q.pop_front();
                for (int k = lo - 1; k <= hi + 1; k++) for (auto &v : av) {
                    ST e = s;
                    if (k >= lo && k <= hi) e[k - lo] = v;
                    if (C.next(&s[0], &v, nullptr, "store")) { T t = build(s); if (k >= lo && k <= hi) store(t, k, enc<V>(v)); else if (k < lo) t.template update<lo - 1>(enc<V>(v)); else t.template update<hi + 1>(enc<V>(v)); check(t, e); }
                    reach(e);
                }
            }
            C.states += seen.size();
            C.extra["closure_states"] += seen.size();
        }
    }
};
template <int K, class E, int M, int L> void one() { if constexpr (K % NSHARD == SHARD) { ARR<E, M, L>{}.run(); } }
void mc::run() {
    one<0, EL<true, 16, false>, 3, 0>(); one<1, EL<false, 16, false>, 3, 0>(); one<2, EL<true, 8, true>, 0, 5>(); one<3, EL<false, 8, true>, 5, 3>();
    one<4, EL<true, 1, false>, 2, 1>(); one<5, EL<true, 1, false>, 1, 2>(); one<6, EL<true, 65, false>, 6, 4>(); one<7, EL<false, 65, true>, 2, 6>();
    one<8, EL<true, 33, false>, 1, -2>(); one<9, EL<false, 5, false>, -3, 2>(); one<10, EL<true, 128, true>, 7, 7>(); one<11, EL<false, 1, false>, 3, 1>();
    one<12, EL<true, 4, false>, 100, 60>(); one<13, EL<true, 64, false>, -8, -5>(); one<14, EL<false, 64, false>, 9, 0>(); one<15, EL<true, 3, true>, 0, 0>();
#ifdef MC_THOROUGH
    one<16, EL<true, 300, false>, 2, 0>(); one<17, EL<false, 2, false>, 64, 1>(); one<18, EL<true, 7, true>, 1, 9>(); one<19, EL<true, 31, false>, 12, 10>(); one<20, EL<false, 100, true>, -1, 1>(); one<21, EL<true, 2, false>, 5, 6>();
    one<22, EL<false, 2, true>, 2, 0>(); one<23, EL<true, 12, false>, 255, 200>();
#endif
}
