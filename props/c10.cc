// bit and part selects (reads)
#include "pairs.hh"
#include "ranges.hh"
using namespace mc;
template <bool F, int M, int L, bool S> struct Sel {
    using A = RT<F, M, L, S>;
    static constexpr int W = absd(M, L) + 1;
    static constexpr bool desc = M >= L;
    static constexpr int fill = F ? 2 : 0;
    std::vector<RV> vs;
    std::string g;
    const RV *cur;
    RV one(long i) { return ref::part(*cur, pos(M, L, i), 1, fill); }
    RV rng(long a, long b, int n) { long p = pos(M, L, a), q = pos(M, L, b); return ref::part(*cur, std::min(p, q), n, fill); }
    bool nx(std::string s) { if (!C.next(cur)) return false; C.note2 = std::move(s); return true; }
    template <class T> void same(const T &e) { bool c; RV r = dec(e, &c); if (!r.same(*cur) || !c) C.fail("the read changed the vector to " + r.bin()); }

    template <int N> void slices(const A &e) {
        std::vector<long> starts;
        long lo = std::min(M, L), hi = std::max(M, L);
        for (long i = lo - N - 1; i <= hi + 2; i++) {
            long k = i - lo;
            if (W <= 12 || k < 2 - N || k > W - N - 2 || (k >= -1 && k < 2) || k == W / 3 || (k + N) % 64 == 0 || k % 64 == 0) starts.push_back(i);
        }
        for (long s : {lo - 100l * N, hi + 300l, -1000000l, 1000000l}) starts.push_back(s);
        for (long s : starts) {
            long a = desc ? s + N - 1 : s, b = desc ? s : s + N - 1;
            if (nx("slice<" + std::to_string(N) + ">(" + std::to_string(a) + "," + std::to_string(b) + ")")) { C.eqt(e.template slice<(uint32_t)N>((int)a, (int)b), rng(a, b, N)); }
        }
        C.note2.clear();
    }
    template <int N, class I> void based(const A &e, const RV &iv) {
        I ix = enc<I>(iv);
        bool un = !iv.known();
        // the value of the base; far away ones are all equivalent
        long k = 0;
        bool far = un;
        if (!un) {
            RV p = ref::resize(iv, 512, iv.sg, true);
            for (int i = 1; i < 8; i++) if (p.v[i] != (iv.sg && p.v[7] >> 63 ? ~0ull : 0)) far = true;
            if (p.v[0] >> 40 && ~p.v[0] >> 40) far = true;
            if (!far && (p.v[0] >> 63) && !(p.v[7] >> 63)) far = true;
            k = far ? 0 : (long)p.v[0];
        }
        if (far) k = 1l << 40;
        if (nx("slice<" + std::to_string(N) + ",+>(" + iv.desc() + ")")) C.eqt(e.template slice<(uint32_t)N, true>(ix), rng(k, k + N - 1, N));
        if (nx("slice<" + std::to_string(N) + ",->(" + iv.desc() + ")")) C.eqt(e.template slice<(uint32_t)N, false>(ix), rng(k, k - N + 1, N));
        if constexpr (N == 1) {
            constexpr bool i4 = I::is_4state;
            if constexpr (F || !i4) if (nx("get(" + iv.desc() + ")")) {
                if constexpr (F) C.eqt(e.get(ix), one(k)); else C.eqb(e.get(ix), one(k).bit(0) == 1);
            }
        }
        C.note2.clear();
    }
    template <class I> void bases(const A &e, bool deep) {
        constexpr int IW = I::size;
        std::set<RV> seen; std::vector<RV> iv;
        long lo = std::min(M, L), hi = std::max(M, L);
        auto add = [&](long v) { RV r(IW, I::is_signed); for (int i = 0; i < ref::NW; i++) r.v[i] = i ? (v < 0 ? ~0ull : 0) : (ref::u64)v; r.trim(); push(iv, seen, r); };
        for (long d = -2; d <= 2; d++) { add(lo + d); add(hi + d); add(lo + 32 + d); add(lo + 62 + d); }
        if (deep) for (long i = lo; i <= hi && i < lo + 20; i++) add(i);
        add(-1); add(1l << 31); add(1l << 32); add((1l << 32) + 1); add(-(1l << 31)); add(0x7fffffffffffffffl); add(0x8000000000000000l); add((1l << 33) + lo); add(64 - W); add(W - 64);
        for (int p : edges(IW, 0)) { RV r(IW, I::is_signed, 1); r.setbit(p, 1); push(iv, seen, r); }
        if (I::is_4state) { RV r(IW, I::is_signed, 1); r.setbit(IW - 1, 2); push(iv, seen, r); r = RV(IW, I::is_signed, 0); r.setbit(0, 3); push(iv, seen, r); r = ref::allx(IW, I::is_signed); push(iv, seen, r); }
        for (auto &r : iv) {
            RV t = r; t.sg = I::is_signed;
            based<1, I>(e, t);
            based<3, I>(e, t);
            if constexpr (W > 4) based<W - 1, I>(e, t);
            if (deep) { based<65, I>(e, t); based<W, I>(e, t); }
        }
    }
    void run() {
        if (!C.begin(g)) return;
        vs = vals(F, W, S, W <= 8 ? 2 : C.thorough ? 1 : 0);
        C.states += vs.size();
        size_t n = 0;
        for (auto &v : vs) {
            cur = &v;
            const A e = enc<A>(v);
            for (long i : around(M, L, C.thorough)) {
                if (nx("[" + std::to_string(i) + "]")) C.eqt(e[(int)i], one(i));
                if constexpr (F) if (pos(M, L, i) >= 0 && pos(M, L, i) < W) {
                    if (nx("x_set(" + std::to_string(i) + ")")) C.eqb(e.x_set((int)i), one(i).bit(0) == 2);
                    if (nx("z_set(" + std::to_string(i) + ")")) C.eqb(e.z_set((int)i), one(i).bit(0) == 3);
                }
            }
            times<CI<M, L>::count()>([&]<int K>() {
                constexpr int i = CI<M, L>::at(K);
                if (nx("get<" + std::to_string(i) + ">")) C.eqt(e.template get<i>(), one(i));
                times<CI<M, L>::count()>([&]<int J>() {
                    constexpr int j = CI<M, L>::at(J);
                    if constexpr (desc ? i >= j : i <= j) {
                        if (nx("slice<" + std::to_string(i) + "," + std::to_string(j) + ">")) C.eqt(e.template slice<i, j>(), rng(i, j, absd(i, j) + 1));
                    }
                });
            });
            slices<1>(e); slices<2>(e); slices<8>(e); slices<33>(e); slices<64>(e); slices<65>(e); slices<W>(e);
            if (n % 4 == 0 || W <= 3) {
                bases<logic::bit<31, 0>>(e, C.thorough || n == 0);
                bases<logic::logic<31, 0, true>>(e, C.thorough);
                bases<logic::logic<5, 0>>(e, false);
                bases<logic::logic<63, 0>>(e, C.thorough);
                bases<logic::bit<99, 0>>(e, false);
                bases<logic::logic<99, 0, true>>(e, false);
                bases<logic::bit<15, 8, true>>(e, false);
            }
            n++;
            if (nx("all reads")) same(e);
        }
        C.note2.clear();
    }
};
struct R { template <bool F, int M, int L, bool S> void operator()() { Sel<F, M, L, S> s; s.g = rn(F, M, L, S); s.run(); } };
// every width and every position, through tables of functions: declared downwards when unsigned, upwards when signed
struct E {
    template <bool F, int W, bool S> using type = RT<F, S ? 0 : W - 1, S ? W - 1 : 0, S>;
    int w; bool four, sg;
    RV (*get)(const RV &, int), (*get1)(const RV &, uint32_t), (*s2)(const RV &, int, int), (*s64)(const RV &, int, int), (*sw)(const RV &, int, int), (*top)(const RV &), (*low)(const RV &), (*mid)(const RV &);
    template <class T> static RV one(const T &t) { if constexpr (std::is_same_v<T, bool>) return ref::onebit(t); else return dec(t); }
    template <class A> static E make() {
        E e{};
        constexpr int W = (int)A::size;
        constexpr bool down = !A::is_signed || W == 1;
        e.get = [](const RV &v, int i) { const A a = enc<A>(v); return one(a[i]); };
        e.get1 = [](const RV &v, uint32_t i) { const A a = enc<A>(v); return one(a.get(logic::bit<31, 0, false>(i))); };
        e.s2 = [](const RV &v, int a, int b) { return dec(enc<A>(v).template slice<2u>(a, b)); };
        e.s64 = [](const RV &v, int a, int b) { return dec(enc<A>(v).template slice<64u>(a, b)); };
        e.sw = [](const RV &v, int a, int b) { return dec(enc<A>(v).template slice<(uint32_t)W>(a, b)); };
        e.top = [](const RV &v) { const A a = enc<A>(v); return dec(a.template slice<down ? W - 1 : 0, down ? W / 2 : W - 1 - W / 2>()); };
        e.low = [](const RV &v) { const A a = enc<A>(v); return dec(a.template slice<down ? W / 2 : W - 1 - W / 2, down ? 0 : W - 1>()); };
        e.mid = [](const RV &v) { if constexpr (W > 2) { const A a = enc<A>(v); return dec(a.template slice<down ? W - 2 : 1, down ? 1 : W - 2>()); } else return v; };
        return e;
    }
    void go() {
        const bool up = sg && w > 1;
        const int fill = four ? 2 : 0;
        auto vs = vals(four, w, sg, 0);
        vs = thinned(vs, 12);
        for (auto &v : vs) {
            auto judge = [&](const RV &r, const RV &e) { C.outcome(r.hash()); if (!r.same(e)) C.fail("got " + r.bin() + " expected " + e.bin()); };
            for (int i = -2; i < w + 2; i++) {
                C.note2.clear();
                const int d = up ? w - 1 - i : i;
                auto nm = [&](const char *n) { C.note2 = std::string(n) + " from position " + std::to_string(i); };
                if (C.next(&v, nullptr, nullptr, "get")) { nm("get"); judge(get(v, d), ref::part(v, i, 1, fill)); }
                if (d >= 0 && C.next(&v, nullptr, nullptr, "get")) { nm("get by vector"); judge(get1(v, d), ref::part(v, i, 1, fill)); }
                struct { RV (*f)(const RV &, int, int); int n; } k[] = {{s2, 2}, {s64, 64}, {sw, w}};
                for (auto &s : k) if (C.next(&v, nullptr, nullptr, "slice")) { nm("slice"); const int hi = i + s.n - 1; judge(up ? s.f(v, w - 1 - hi, d) : s.f(v, hi, d), ref::part(v, i, s.n, fill)); }
            }
            C.note2.clear();
            if (C.next(&v, nullptr, nullptr, "upper half")) judge(top(v), ref::part(v, w / 2, w - w / 2, fill));
            if (C.next(&v, nullptr, nullptr, "lower half")) judge(low(v), ref::part(v, 0, w / 2 + 1, fill));
            if (w > 2 && C.next(&v, nullptr, nullptr, "middle")) judge(mid(v), ref::part(v, 1, w - 2, fill));
        }
    }
    static std::vector<RV> thinned(const std::vector<RV> &v, size_t n) { std::vector<RV> o; for (size_t i = 0; i < n && i < v.size(); i++) o.push_back(v[v.size() <= n ? i : i * v.size() / n]); return o; }
};
void mc::run() { each_range(R{}); every_tab<E>(); }
