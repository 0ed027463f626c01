// extreme arguments of the entry points that take machine integers or text (run under the sanitizers)
#include "ops.hh"
#include "ranges.hh"
using namespace mc;
template <class T> void see(const T &t) { if constexpr (std::is_same_v<T, bool>) C.outcome(t); else C.outcome(dec(t).hash()); }
// every text of up to n characters over an alphabet
template <class F> void texts(const char *al, int n, F &&f) {
    std::string s;
    f(s);
    int k = strlen(al);
    for (int len = 1; len <= n; len++) {
        std::vector<int> ix(len, 0);
        for (;;) {
            s.clear();
            for (int i : ix) s += al[i];
            f(s);
            int i = len - 1;
            while (i >= 0 && ++ix[i] == k) ix[i--] = 0;
            if (i < 0) break;
        }
    }
}
template <bool F, int M, int L, bool S> struct EXT {
    static constexpr int W = absd(M, L) + 1;
    using T = typename std::conditional_t<F, std::type_identity<logic::logic<M, L, S>>, std::type_identity<logic::bit<M, L, S>>>::type;
    using B1 = VT<F, 1, false>;
    std::vector<long> ix() {
        long lo = std::min(M, L), hi = std::max(M, L);
        std::set<long> o;
        for (long i : {lo - 65, lo - 64, lo - 63, lo - 2, lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, hi + 2, hi + 63, hi + 64, hi + 65, 0l, 63l, 64l, 65l, -2147483648l, -2147483647l, 2147483647l, 2147483646l}) o.insert(i);
        return {o.begin(), o.end()};
    }
    std::vector<long> lix() {
        auto o = ix();
        for (long i : {1l << 31, -(1l << 31) - 1, 1l << 32, (1l << 32) + 1, 1l << 61, (1l << 62) - 1, 1l << 62, (1l << 62) + 1, -(1l << 62), INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1}) o.push_back(i);
        return o;
    }
    template <int N> void slices(const RV &v) {
        for (long a : lix()) for (long b : lix()) {
            C.note2 = "(" + std::to_string(a) + "," + std::to_string(b) + ") of " + std::to_string(N);
            if (C.next(&v, nullptr, nullptr, "slice")) { const T t = enc<T>(v); see(t.template slice<N>(a, b)); }
            if (C.next(&v, nullptr, nullptr, "update")) { T t = enc<T>(v); t.update(a, b, enc<VT<F, N, S>>(RV(N, S, 0x5a))); see(t); }
        }
        C.note2.clear();
    }
    void run() {
        if (!C.begin(std::string(F ? "logic" : "bit") + (S ? "s" : "u") + "[" + std::to_string(M) + ":" + std::to_string(L) + "]")) return;
        auto vs = vals(F, W, S, 1);
        thin(vs, C.thorough ? 40 : 7);
        for (auto &v : vs) {
            C.states++;
            for (long i : ix()) {
                C.note2 = std::to_string(i);
                if (C.next(&v, nullptr, nullptr, "read")) { const T t = enc<T>(v); see(t[(int)i]); }
                if (C.next(&v, nullptr, nullptr, "set")) { T t = enc<T>(v); t.set((int)i, true); see(t); t.set((int)i, false); see(t); }
                if constexpr (F) {
                    if (C.next(&v, nullptr, nullptr, "set unknown")) { T t = enc<T>(v); t.set_x((int)i); see(t); t.set_z((int)i); see(t); t.set((int)i, B1()); see(t); if (t.x_set((int)i)) see(true); if (t.z_set((int)i)) see(true); }
                }
            }
            for (long a : lix()) for (long b : lix()) {
                C.note2 = "(" + std::to_string(a) + "," + std::to_string(b) + ")";
                if (C.next(&v, nullptr, nullptr, "slice_ref")) { T t = enc<T>(v); t.slice_ref(a, b) = enc<VT<F, 9, S>>(RV(9, S, 0x155)); see(t); }
            }
            C.note2.clear();
            slices<1>(v); slices<5>(v); slices<64>(v); slices<65>(v); slices<130>(v);
        }
        // format texts
        auto fs = vals(F, W, S, 0);
        thin(fs, 4);
        if (F) { fs.push_back(ref::allx(W, S)); fs.push_back(ref::allz(W, S)); RV m = ref::allx(W, S); m.setbit(0, 3); fs.push_back(m); }
        for (auto &v : fs) {
            const T t = enc<T>(v);
            auto one = [&](const std::string &f) {
                C.note2 = f;
                if (C.next(&v, nullptr, nullptr, "str")) try { auto s = t.str(f); C.outcome(s.size()); C.outcome(std::hash<std::string>{}(s)); } catch (const std::exception &) { C.outcome(3); }
            };
            texts("019bdhosxXDHOSBq %-", 2, one);
            for (auto f : {"000b", "007d", "0000000000001h", "1000b", "4000d", "70000s", "65536o", "4294967295999999999999999b", "18446744073709551616d", "-5d", "+5d", " 5d", "5", "0", "12345", "bb", "dd", "%d", "b8", "3b3", "b\n", "\xff", "1\xff"}) one(f);
            one(std::string(1, '\0')); one(std::string("1\0b", 3));
            if (C.next(&v, nullptr, nullptr, "number")) { C.outcome((bool)t); C.outcome(t.to_uint64()); }
        }
        C.note2.clear();
        // literal texts
        auto lit = [&](const std::string &s) {
            C.note2 = s;
            if (C.next(nullptr, nullptr, nullptr, "literal")) try { const T t{std::string_view(s)}; see(t); } catch (const std::exception &) { C.outcome(3); }
        };
        texts(C.thorough ? "019afxz_'bdhosH g\xff" : "19fz_'dhos", C.thorough ? 4 : 3, lit);
        for (char b : std::string("bodhsBODHSq")) for (int n : {0, 1, W - 1, W, W + 1, 2 * W, 700}) for (auto c : {"0", "1", "9", "f", "x", "z", "_", "F", "Z", " ", "g"}) for (auto p : {"", "1", "8", "64", "65", "0", "99999999999999999999999", "_", "1_0"}) {
            std::string s = std::string(p) + "'" + b;
            for (int i = 0; i < n; i++) s += c;
            lit(s);
        }
        C.note2.clear();
        // integers
        auto num = [&](auto k) {
            C.note2 = std::to_string(k);
            if (C.next(nullptr, nullptr, nullptr, "integer")) { T t(k); see(t); T u; u = k; see(u); C.outcome(u.to_uint64()); }
        };
        for (auto k : {INT64_MIN, INT64_MIN + 1, -1l, 0l, 1l, INT64_MAX}) num((long)k);
        for (auto k : {0ul, 1ul, UINT64_MAX, UINT64_MAX - 1, 1ul << 63}) num((unsigned long)k);
        for (int k : {INT32_MIN, -1, 0, INT32_MAX}) { num(k); num((int8_t)k); num((int16_t)k); num((uint8_t)k); num((uint32_t)k); }
        C.note2.clear();
        if (C.next(nullptr, nullptr, nullptr, "default")) { T t; see(t); }
        if constexpr (M < L) return;  // the operators want descending ranges
        else operators();
    }
    void operators() {
        // all operators on the boundary values, with themselves and with very different widths
        auto os = vals(F, W, S, 2);
        thin(os, C.thorough ? 60 : 24);
        for (auto &o : ops1<T>()) if (o.f) for (auto &a : os) if (C.next(&a, nullptr, nullptr, o.name)) C.outcome(o.f(a).hash());
        auto cross = [&](auto tag) {
            using U = typename decltype(tag)::type;
            auto us = vals(F, U::size, U::is_signed, 2);
            thin(us, C.thorough ? 60 : 24);
            for (auto &o : ops2<T, U>()) if (o.f) for (auto &a : os) for (auto &b : us) if (C.next(&a, &b, nullptr, o.name)) try { C.outcome(o.f(a, b).hash()); } catch (Changed &) {}
        };
        cross(std::type_identity<T>{});
        cross(std::type_identity<VT<F, W + 1, S>>{});
        cross(std::type_identity<VT<F, 65, !S>>{});
#ifdef MC_THOROUGH
        cross(std::type_identity<VT<F, 3, S>>{});
#endif
    }
};
template <int K, int M, int L> void go() {
    if constexpr ((4 * K) % NSHARD == SHARD) EXT<true, M, L, false>{}.run();
    if constexpr ((4 * K + 1) % NSHARD == SHARD) EXT<true, M, L, true>{}.run();
    if constexpr ((4 * K + 2) % NSHARD == SHARD) EXT<false, M, L, false>{}.run();
    if constexpr ((4 * K + 3) % NSHARD == SHARD) EXT<false, M, L, true>{}.run();
}
void mc::run() {
    go<0, 0, 0>(); go<1, 6, 0>(); go<2, 3, 10>(); go<3, 40, 8>(); go<4, 62, 0>(); go<5, -3, 60>(); go<6, 64, 0>(); go<7, 127, 0>(); go<8, 5, 133>(); go<9, 199, 0>();
#ifdef MC_THOROUGH
    go<10, 15, 0>(); go<11, 0, 16>(); go<12, 31, 0>(); go<13, 32, 0>(); go<14, 126, 0>(); go<15, 191, 0>(); go<16, 192, 0>(); go<17, -70, -5>(); go<18, 299, 0>(); go<19, 511, 0>();
#endif
}
