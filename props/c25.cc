// packed structs and unions
#include "pairs.hh"
#include "ranges.hh"
#include <logic/struct.hh>
#include <logic/union.hh>
#include <deque>
using namespace mc;
template <bool U, bool F, int W> struct base { using type = typename logic::packed_struct<W, F>::type; };
template <bool F, int W> struct base<true, F, W> { using type = typename logic::union_<W, F>::type; };
template <int H, int L> struct FD { static constexpr int hi = H, lo = L, w = H - L + 1; };
template <bool U, bool F, int W, class... Fs> struct LAY {
    using T = typename base<U, F, W>::type;
    static_assert(T::size == W);
    static constexpr int N = sizeof...(Fs);
    std::string nm = std::string(U ? "union" : "struct") + std::to_string(W) + (F ? " four-state" : " two-state");
    LAY() { ((nm += " [" + std::to_string(Fs::hi) + ":" + std::to_string(Fs::lo) + "]"), ...); }
    static RV field(const RV &a, int hi, int lo) { RV r(hi - lo + 1, false); for (int b = lo; b <= hi; b++) r.setbit(b - lo, a.bit(b)); return r; }
    static RV put(const RV &a, int hi, int lo, const RV &v) { RV r = a; for (int b = lo; b <= hi; b++) r.setbit(b, b - lo < v.w ? v.bit(b - lo) : 0); return r; }
    // every field read on its own
    static void look(const T &t, const RV &a) {
        C.eqt(t, a, "whole");
        ([&] { C.eqt(t.template slice<Fs::hi, Fs::lo>(), field(a, Fs::hi, Fs::lo), "field"); }(), ...);
        ([&] { typename base<U, F, Fs::w>::type v = t.template slice<Fs::hi, Fs::lo>(); C.eq(v, field(a, Fs::hi, Fs::lo), "field"); }(), ...);
    }
    template <class K> static void write(T &t, int f, const K &k) { int i = 0; ([&] { if (i++ == f) t.template update<Fs::hi, Fs::lo>(k); }(), ...); }
    static void dims(int f, int &hi, int &lo) { int i = 0; ([&] { if (i++ == f) hi = Fs::hi, lo = Fs::lo; }(), ...); }
    template <int WV> static void step(const RV &a, int f, const RV &v) {
        int hi, lo;
        dims(f, hi, lo);
        T t = enc<T>(a);
        write(t, f, enc<VT<F, WV, false>>(v));
        look(t, put(a, hi, lo, v));
    }
    void run() {
        if (C.begin(nm)) {
            if (C.next(nullptr, nullptr, nullptr, "default")) { T t; look(t, F ? ref::allx(W) : RV(W, false)); }
            auto st = vals(F, W, false, C.thorough ? 2 : 0);
            C.states += st.size();
            for (auto &a : st) {
                if (C.next(&a, nullptr, nullptr, "assigned as a whole")) { T t; t = enc<VT<F, W, false>>(a); look(t, a); }
                if (C.next(&a, nullptr, nullptr, "assigned from a wider vector")) { T t; t = enc<VT<F, W + 9, true>>(ref::conv(a, W + 9, true)); look(t, a); }
                if (C.next(&a, nullptr, nullptr, "assigned from a narrower signed vector")) { constexpr int n = W > 2 ? W - 2 : 1; RV s = ref::conv(a, n, true); T t; t = enc<VT<F, n, true>>(s); look(t, ref::conv(s, W, false)); }
                if (C.next(&a, nullptr, nullptr, "copied and written")) {
                    const T t = enc<T>(a);
                    T u = t;
                    write(u, 0, VT<F, 1, false>());
                    look(t, a);
                }
                int i = 0;
                ([&] {
                    auto fv = vals(F, Fs::w, false, 0);
                    if (fv.size() > (C.thorough ? 60 : 16)) { std::vector<RV> q; size_t m = C.thorough ? 60 : 16; for (size_t k = 0; k < m; k++) q.push_back(fv[k * fv.size() / m]); fv = q; }
                    if (F) { fv.push_back(ref::allx(Fs::w)); fv.push_back(ref::allz(Fs::w)); }
                    for (auto &v : fv) {
                        if (C.next(&a, &v, nullptr, "field written")) { C.note2 = "field " + std::to_string(i); step<Fs::w>(a, i, v); }
                        RV w = ref::resize(v, Fs::w + 3, false, false);
                        for (int b = 0; b < 3; b++) w.setbit(Fs::w + b, F ? 3 - b : 1);
                        if (C.next(&a, &w, nullptr, "field written from a wider vector")) step<Fs::w + 3>(a, i, w);
                        constexpr int n = Fs::w > 1 ? Fs::w - 1 : 1;
                        RV s = ref::resize(v, n, false, false);
                        if (C.next(&a, &s, nullptr, "field written from a narrower vector")) step<n>(a, i, s);
                        C.note2.clear();
                    }
                    i++;
                }(), ...);
            }
        }
        orders();
        closure();
    }
    // every order of writes: all sequences of up to three field writes (value alphabet of four per field), read after each step
    void orders() {
        if (!C.begin(nm + " histories")) return;
        std::vector<std::pair<int, RV>> acts;
        for (int f = 0; f < N; f++) {
            int hi, lo;
            dims(f, hi, lo);
            int w = hi - lo + 1;
            RV ones = ref::allz(w), mix(w, false);
            for (auto &x : ones.x) x = 0;
            for (int b = 0; b < w; b++) mix.setbit(b, F ? (b * 7 + f) % 4 : (b + f) % 2);
            acts.push_back({f, ones}); acts.push_back({f, mix}); acts.push_back({f, F ? ref::allz(w) : RV(w, false)});
        }
        int depth = C.thorough ? 4 : N > 4 ? 2 : 3;
        T t0;
        RV a0 = F ? ref::allx(W) : RV(W, false);
        std::vector<int> path;
        walk(acts, depth, t0, a0);
    }
    void walk(const std::vector<std::pair<int, RV>> &acts, int depth, const T &t, const RV &a) {
        if (!depth) return;
        for (auto &[f, v] : acts) {
            T u = t;
            int hi, lo, i = 0;
            dims(f, hi, lo);
            ([&] { if (i++ == f) u.template update<Fs::hi, Fs::lo>(enc<VT<F, Fs::w, false>>(v)); }(), ...);
            RV e = put(a, hi, lo, v);
            if (C.next(&a, &v, nullptr, "written")) { look(u, e); C.paths++; }
            if (C.failed_here) continue;
            walk(acts, depth - 1, u, e);
        }
    }
    void closure() {
        if constexpr (W <= (F ? 5 : 9)) {
            if (!C.begin(nm + " closure")) return;
            std::set<RV> seen;
            std::deque<RV> q;
            auto reach = [&](const RV &r) { if (seen.insert(r).second) q.push_back(r); };
            { T t; reach(dec(t)); }
            while (!q.empty()) {
                RV a = q.front();
                q.pop_front();
                int i = 0;
                ([&] {
                    for (auto &v : F ? all4(Fs::w) : all2(Fs::w)) {
                        if (C.next(&a, &v, nullptr, "")) step<Fs::w>(a, i, v);
                        reach(put(a, Fs::hi, Fs::lo, v));
                    }
                    i++;
                }(), ...);
            }
            C.states += seen.size();
            C.extra["closure_states"] += seen.size();
        }
    }
};
template <int K, class X> void go() { if constexpr (K % NSHARD == SHARD) X{}.run(); }
template <int K, int W, class... Fs> void each() {
    go<4 * K + 0, LAY<false, true, W, Fs...>>(); go<4 * K + 1, LAY<true, true, W, Fs...>>(); go<4 * K + 2, LAY<false, false, W, Fs...>>(); go<4 * K + 3, LAY<true, false, W, Fs...>>();
}
void mc::run() {
#if defined(MC_SAN) && !defined(MC_THOROUGH)
    each<0, 16, FD<15, 0>, FD<7, 0>, FD<15, 8>, FD<11, 4>>(); each<1, 5, FD<0, 0>, FD<2, 1>, FD<4, 3>, FD<3, 2>, FD<4, 0>>(); each<2, 65, FD<64, 64>, FD<63, 0>, FD<64, 1>, FD<32, 31>>();
    each<3, 100, FD<31, 0>, FD<63, 32>, FD<99, 64>, FD<70, 60>, FD<99, 35>>(); each<4, 192, FD<63, 0>, FD<127, 64>, FD<191, 128>, FD<190, 1>>(); each<5, 1, FD<0, 0>>();
    return;
#endif
    each<0, 10, FD<4, 0>, FD<9, 5>>();
    each<1, 16, FD<15, 0>, FD<7, 0>, FD<15, 8>, FD<11, 4>>();
    each<2, 5, FD<0, 0>, FD<2, 1>, FD<4, 3>, FD<3, 2>, FD<4, 0>>();
    each<3, 4, FD<1, 0>, FD<3, 2>, FD<2, 1>>();
    each<4, 64, FD<63, 0>, FD<31, 0>, FD<63, 32>, FD<40, 20>>();
    each<5, 65, FD<64, 64>, FD<63, 0>, FD<64, 1>, FD<32, 31>>();
    each<6, 100, FD<31, 0>, FD<63, 32>, FD<99, 64>, FD<70, 60>, FD<99, 35>>();
    each<7, 130, FD<63, 0>, FD<127, 64>, FD<129, 128>, FD<128, 63>, FD<65, 62>>();
    each<8, 192, FD<63, 0>, FD<127, 64>, FD<191, 128>, FD<190, 1>>();
    each<9, 9, FD<8, 8>, FD<7, 0>, FD<8, 4>, FD<0, 0>>();
    each<10, 33, FD<32, 32>, FD<32, 1>, FD<31, 0>, FD<16, 8>>();
    each<11, 1, FD<0, 0>>();
#ifdef MC_THOROUGH
    each<12, 300, FD<99, 0>, FD<199, 100>, FD<299, 200>, FD<260, 61>>();
    each<13, 8, FD<0, 0>, FD<1, 1>, FD<2, 2>, FD<3, 3>, FD<7, 4>>();
    each<14, 17, FD<15, 0>, FD<16, 16>, FD<16, 1>>();
    each<15, 128, FD<127, 0>, FD<63, 0>, FD<127, 64>, FD<95, 32>>();
#endif
}
