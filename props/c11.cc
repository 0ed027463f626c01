// writes through selects
#include "pairs.hh"
#include "ranges.hh"
#include <deque>
using namespace mc;
template <bool F, int M, int L, bool S> struct Upd {
    using A = RT<F, M, L, S>;
    static constexpr int W = absd(M, L) + 1;
    static constexpr bool desc = M >= L;
    std::string g;
    const RV *cur;
    bool nx(const char *s, long a = 0, long b = 0, const RV *src = nullptr) {
        if (!C.next(cur, src)) return false;
        if (C.replay || !pretty) {}
        nm = s; na = a; nb = b;
        C.note = nm;
        return true;
    }
    const char *nm = ""; long na = 0, nb = 0; bool pretty = false;
    template <class T> void chk(const T &t, const RV &e) {
        bool cl; RV r = dec(t, &cl);
        C.outcome(r.hash());
        if (!r.same(e)) { C.fail(std::string("(") + std::to_string(na) + "," + std::to_string(nb) + ") got " + r.bin() + " expected " + e.bin()); return; }
        if (!cl) { C.fail(std::string("(") + std::to_string(na) + "," + std::to_string(nb) + ") leaves residue above the width"); return; }
        if (C.samples.size() < 12) C.sample(r.bin());
    }
    RV put(long a, long b, const RV &src) {  // declared indices, any order
        long p = pos(M, L, a), q = pos(M, L, b);
        if (p > q) std::swap(p, q);
        RV r = *cur;
        for (long k = std::max(0l, p); k <= q && k < W; k++) r.setbit(k, k - p < src.w ? src.bit(k - p) : 0);
        return r;
    }
    void single(const A &e, const std::vector<long> &idx) {
        for (long i : idx) for (int t = 0; t < (F ? 4 : 2); t++) {
            RV ex = put(i, i, ref::onebit(t)); ex.sg = S;
            if (t < 2) {
                if (nx("set(i,bool)", i, t)) { A c = e; c.set((int)i, (bool)t); chk(c, ex); }
                if constexpr (!F) if (nx("set(i,bit)", i, t)) { A c = e; c.set((int)i, logic::bit<0>((bool)t)); chk(c, ex); }
            }
            if constexpr (F) {
                if (nx("set(i,logic)", i, t)) { A c = e; c.set((int)i, enc<logic::logic<0>>(ref::onebit(t))); chk(c, ex); }
                if (t == 2 && nx("set_x(i)", i)) { A c = e; c.set_x((int)i); chk(c, ex); }
                if (t == 3 && nx("set_z(i)", i)) { A c = e; c.set_z((int)i); chk(c, ex); }
            }
        }
        times<CI<M, L>::count()>([&]<int K>() {
            constexpr int i = CI<M, L>::at(K);
            for (int t = 0; t < 2; t++) if (nx("set<i>(bool)", i, t)) { A c = e; c.template set<i>((bool)t); chk(c, put(i, i, ref::onebit(t))); }
            if (nx("set<i,1>()", i)) { A c = e; c.template set<i, true>(); chk(c, put(i, i, ref::onebit(1))); }
            if (nx("set<i,0>()", i)) { A c = e; c.template set<i, false>(); chk(c, put(i, i, ref::onebit(0))); }
            if constexpr (F) {
                if (nx("set_x<i>", i)) { A c = e; c.template set_x<i>(); chk(c, put(i, i, ref::onebit(2))); }
                if (nx("set_z<i>", i)) { A c = e; c.template set_z<i>(); chk(c, put(i, i, ref::onebit(3))); }
            }
        });
    }
    template <class SRC> void consts(const A &e, const RV &src, const SRC &s) {
        times<CI<M, L>::count()>([&]<int K>() {
            constexpr int i = CI<M, L>::at(K);
            times<CI<M, L>::count()>([&]<int J>() {
                constexpr int j = CI<M, L>::at(J);
                if constexpr (desc ? i >= j : i <= j) {
                    if (nx("update<>", i, j, &src)) { A c = e; c.template update<i, j>(s); chk(c, put(i, j, src)); }
                    if constexpr (K % 2 == 0) if (nx("slice_ref<>=", i, j, &src)) { A c = e; auto r = c.template slice_ref<i, j>(); r = s; chk(c, put(i, j, src)); }
                    if constexpr (i == j) if (nx("update<i>", i, i, &src)) { A c = e; c.template update<i>(s); chk(c, put(i, i, src)); }
                }
            });
        });
    }
    template <class SRC> void runs(const A &e, const RV &src, const SRC &s, bool deep) {
        auto idx = around(M, L, false);
        std::vector<int> lens = {1, 2, 3, (int)SRC::size, W, 64, W + 2};
        if (W > 5) { lens.push_back(W / 2); lens.push_back(5); }
        for (long st : idx) {
            if (st < -100000 || st > 100000) continue;
            if (!deep && W > 12 && (st * 7 % 3)) continue;
            for (int n : lens) {
                long a = desc ? st + n - 1 : st, b = desc ? st : st + n - 1;
                if (nx("update(hi,lo)", a, b, &src)) { A c = e; c.update((int)a, (int)b, s); chk(c, put(a, b, src)); }
                if (nx("slice_ref(hi,lo)=", a, b, &src)) { A c = e; auto r = c.slice_ref((int)a, (int)b); r = s; chk(c, put(a, b, src)); }
            }
        }
    }
    template <int N, class I, class SRC> void based(const A &e, const RV &iv, const RV &src, const SRC &s) {
        I ix = enc<I>(iv);
        bool far = !iv.known();
        long k = 0;
        if (!far) {
            RV p = ref::resize(iv, 512, iv.sg, true);
            for (int i = 1; i < 8; i++) if (p.v[i] != (p.v[7] >> 63 ? ~0ull : 0)) far = true;
            if (p.v[0] >> 40 && ~p.v[0] >> 40) far = true;
            if ((p.v[0] >> 63) != (p.v[7] >> 63)) far = true;
            k = (long)p.v[0];
        }
        if (far) k = 1l << 40;
        if (nx("slice_ref<N,+>(base)=", N, k, &src)) { A c = e; auto r = c.template slice_ref<(uint32_t)N, true>(ix); r = s; chk(c, put(k, k + N - 1, src)); }
        if (nx("slice_ref<N,->(base)=", N, k, &src)) { A c = e; auto r = c.template slice_ref<(uint32_t)N, false>(ix); r = s; chk(c, put(k, k - N + 1, src)); }
    }
    template <class I, class SRC> void bases(const A &e, const RV &src, const SRC &s) {
        constexpr int IW = I::size;
        std::set<RV> seen; std::vector<RV> iv;
        long lo = std::min(M, L), hi = std::max(M, L);
        auto add = [&](long v) { RV r(IW, I::is_signed); for (int i = 0; i < ref::NW; i++) r.v[i] = i ? (v < 0 ? ~0ull : 0) : (ref::u64)v; r.trim(); push(iv, seen, r); };
        for (long d = -2; d <= 2; d++) { add(lo + d); add(hi + d); add(lo + W / 2 + d); }
        add(1l << 31); add(1l << 32); add((1l << 32) + lo); add(0x7fffffffffffffffl); add(0x8000000000000000l);
        { RV r(IW, I::is_signed, (ref::u64)lo); r.setbit(IW - 1, 1); push(iv, seen, r); }
        if (I::is_4state) { RV r(IW, I::is_signed, lo); r.setbit(IW - 1, 2); push(iv, seen, r); r = RV(IW, I::is_signed, 0); r.setbit(0, 3); push(iv, seen, r); }
        for (auto &r : iv) { RV t = r; t.sg = I::is_signed; based<1, I>(e, t, src, s); based<4, I>(e, t, src, s); based<W, I>(e, t, src, s); }
    }
    template <int SM, int SL, bool SS> void sources(const std::vector<RV> &vs) {
        using SRC = RT<F, SM, SL, SS>;
        constexpr int SW = absd(SM, SL) + 1;
        if (!C.begin(g + "<=" + rn(F, SM, SL, SS))) return;
        auto ss = vals(F, SW, SS, 0);
        if (SW > 3 && !C.thorough) { std::vector<RV> t; size_t step = ss.size() / 7 + 1; for (size_t i = 1; i < ss.size(); i += step) t.push_back(ss[i]); ss = t; }
        C.states += vs.size() + ss.size();
        size_t n = 0;
        for (auto &v : vs) { cur = &v; const A e = enc<A>(v); for (auto &src : ss) {
            const SRC s = enc<SRC>(src);
            consts(e, src, s);
            runs(e, src, s, n % 5 == 0);
            if (n % 3 == 0) {
                bases<logic::bit<31, 0>>(e, src, s); bases<logic::logic<31, 0, true>>(e, src, s); bases<logic::logic<7, 0>>(e, src, s); bases<logic::logic<70, 0, true>>(e, src, s);
            }
            n++;
            if (nx("source unchanged", 0, 0, &src)) { bool cl; RV r = dec(s, &cl); if (!r.same(src)) C.fail("the write changed its source"); }
        } }
    }
    // closure: every state of a short vector reachable from the default one by writes, on real objects
    void closure() {
        if constexpr (W <= 3) {
            if (!C.begin(g + " closure")) return;
            std::map<RV, A> seen; std::deque<RV> todo;
            auto add = [&](const A &a, const RV &ex, const char *n, long x, long y) {
                na = x; nb = y; C.note = n;
                chk(a, ex);
                RV k = dec(a); k.sg = S;
                if (!seen.count(k)) { seen.emplace(k, a); todo.push_back(k); }
            };
            A d{};
            RV dv = dec(d);
            if (C.next(&dv, nullptr, nullptr, "default")) add(d, F ? ref::allx(W, S) : RV(W, S), "default", 0, 0);
            else { seen.emplace(dv, d); todo.push_back(dv); }
            auto srcs = F ? all4(2) : all2(2);
            long lo = std::min(M, L), hi = std::max(M, L);
            while (!todo.empty()) {
                RV v = todo.front(); todo.pop_front(); cur = &v;
                A e = seen.at(v);
                for (long i = lo - 1; i <= hi + 1; i++) for (int t = 0; t < (F ? 4 : 2); t++) {
                    A c = e;
                    if constexpr (F) c.set((int)i, enc<logic::logic<0>>(ref::onebit(t))); else c.set((int)i, (bool)t);
                    if (C.next(cur, nullptr, nullptr, "set")) add(c, put(i, i, ref::onebit(t)), "set", i, t); else { RV k = dec(c); if (!seen.count(k)) { seen.emplace(k, c); todo.push_back(k); } }
                }
                for (long i = lo - 1; i <= hi + 1; i++) for (long j = i; j <= hi + 1; j++) for (auto &src : srcs) {
                    A c = e; long a = desc ? j : i, b = desc ? i : j;
                    c.update((int)a, (int)b, enc<RT<F, 1, 0, false>>(src));
                    if (C.next(cur, &src, nullptr, "update")) add(c, put(a, b, src), "update", a, b); else { RV k = dec(c); if (!seen.count(k)) { seen.emplace(k, c); todo.push_back(k); } }
                    // part of itself
                    A s = e; s.update((int)a, (int)b, s);
                    if (C.next(cur, nullptr, nullptr, "update(self)")) add(s, put(a, b, v), "update(self)", a, b);
                }
            }
            C.states += seen.size();
            C.extra["closure_states"] += seen.size();
        }
    }
    void run() {
        g = rn(F, M, L, S);
        auto vs = vals(F, W, S, W <= 4 ? 2 : 0);
        if (W > 3 && !C.thorough) { std::vector<RV> t; size_t step = vs.size() / 8 + 1; for (size_t i = 0; i < vs.size(); i += step) t.push_back(vs[i]); t.push_back(vs.back()); vs = t; }
        if (C.begin(g + " bits")) { C.states += vs.size(); auto idx = around(M, L, false); for (auto &v : vs) { cur = &v; single(enc<A>(v), idx); } }
        if (C.begin(g + " self")) for (auto &v : vs) {
            cur = &v; const A e = enc<A>(v);
            long lo = std::min(M, L), hi = std::max(M, L);
            for (long a = lo - 2; a <= hi + 2; a += (W > 20 ? 7 : 1)) for (long b = a; b <= hi + 2; b += (W > 20 ? 11 : 1)) {
                long x = desc ? b : a, y = desc ? a : b;
                if (nx("update(self)", x, y)) { A c = e; c.update((int)x, (int)y, c); chk(c, put(x, y, v)); }
                if (nx("slice_ref=self", x, y)) { A c = e; auto r = c.slice_ref((int)x, (int)y); r = c; chk(c, put(x, y, v)); }
            }
        }
        sources<0, 0, false>(vs);
        sources<3, 0, false>(vs);
#if !defined(MC_SAN) || defined(MC_THOROUGH)
        sources<0, 4, true>(vs);
        if constexpr (W != 4) sources<W - 1, 0, S>(vs);
#endif
        if constexpr (W > 64) sources<70, 3, false>(vs);
        if (rg_max) { sources<9, 2, true>(vs); sources<63, 0, false>(vs); sources<2, 90, false>(vs); }
        closure();
    }
};
struct R { template <bool F, int M, int L, bool S> void operator()() { Upd<F, M, L, S> s; s.run(); } };
// every width and every position, through tables of functions: declared downwards when unsigned, upwards when signed
struct E {
    template <bool F, int W, bool S> using type = RT<F, S ? 0 : W - 1, S ? W - 1 : 0, S>;
    int w; bool four, sg;
    using U = void (*)(const RV &, int, int, const RV &, RV &, bool &);
    void (*set)(const RV &, int, bool, RV &, bool &);
    U up5, up70, ref5, ref70, top, low, mid;
    template <class A, int N> using SRC = VT<A::is_4state, N, false>;
    template <class A> static E make() {
        E e{};
        constexpr int W = (int)A::size;
        constexpr bool down = !A::is_signed || W == 1;
        e.set = [](const RV &v, int i, bool b, RV &r, bool &c) { A a = enc<A>(v); a.set(i, b); r = dec(a, &c); };
        e.up5 = [](const RV &v, int h, int l, const RV &s, RV &r, bool &c) { A a = enc<A>(v); a.update(h, l, enc<SRC<A, 5>>(s)); r = dec(a, &c); };
        e.up70 = [](const RV &v, int h, int l, const RV &s, RV &r, bool &c) { A a = enc<A>(v); a.update(h, l, enc<SRC<A, 70>>(s)); r = dec(a, &c); };
        e.ref70 = [](const RV &v, int h, int l, const RV &s, RV &r, bool &c) { A a = enc<A>(v); auto k = a.slice_ref(h, l); k = enc<SRC<A, 70>>(s); r = dec(a, &c); };
        e.top = [](const RV &v, int, int, const RV &s, RV &r, bool &c) { A a = enc<A>(v); a.template update<down ? W - 1 : 0, down ? W / 2 : W - 1 - W / 2>(enc<SRC<A, 70>>(s)); r = dec(a, &c); };
        e.low = [](const RV &v, int, int, const RV &s, RV &r, bool &c) { A a = enc<A>(v); a.template update<down ? W / 2 : W - 1 - W / 2, down ? 0 : W - 1>(enc<SRC<A, 70>>(s)); r = dec(a, &c); };
        e.mid = [](const RV &v, int, int, const RV &s, RV &r, bool &c) { A a = enc<A>(v); if constexpr (W > 2) a.template slice_ref<down ? W - 2 : 1, down ? 1 : W - 2>() = enc<SRC<A, 70>>(s); r = dec(a, &c); };
        return e;
    }
    void go() {
        const bool up = sg && w > 1;
        std::vector<RV> vs = {ref::allx(w, sg)}, s5, s70;
        if (!four) vs = {RV(w, sg)};
        { RV r(w, sg); for (int i = 0; i < w; i++) r.setbit(i, 1); vs.push_back(r); for (int i = 0; i < w; i += 2) r.setbit(i, 0); vs.push_back(r); }
        for (int n : {5, 70}) {
            auto &o = n == 5 ? s5 : s70;
            RV a(n, false), b(n, false);
            for (int i = 0; i < n; i++) { a.setbit(i, i % 3 != 1); b.setbit(i, four ? (i * 7 + 2) % 4 : i % 3 == 1); }
            o = {a, b};
        }
        for (auto &v : vs) {
            auto put = [&](int p, int q, const RV &src) { RV r = v; for (int k = std::max(0, p); k <= q && k < w; k++) r.setbit(k, k - p < src.w ? src.bit(k - p) : 0); return r; };
            auto run = [&](U f, int p, int n, const RV &s) {
                RV r; bool clean = true;
                if (up) f(v, w - 1 - (p + n - 1), w - 1 - p, s, r, clean); else f(v, p + n - 1, p, s, r, clean);
                r.sg = sg;
                RV e = put(p, p + n - 1, s);
                C.note2 = std::to_string(n) + " bits from position " + std::to_string(p);
                every_same(r, e, clean);
            };
            for (int i = -2; i < w + 2; i++) {
                C.note2.clear();
                for (bool b : {false, true}) if (C.next(&v, nullptr, nullptr, "set")) { RV r; bool clean = true; set(v, up ? w - 1 - i : i, b, r, clean); C.note2 = "position " + std::to_string(i); every_same(r, put(i, i, ref::onebit(b)), clean); C.note2.clear(); }
                for (auto &s : s5) for (int n : {1, 5, 8}) { C.note2.clear(); if (C.next(&v, &s, nullptr, "update")) run(up5, i, n, s); }
                for (auto &s : s70) for (int n : {33, 64, 70, w}) {
                    C.note2.clear(); if (C.next(&v, &s, nullptr, "update")) run(up70, i, n, s);
                    C.note2.clear(); if (n != 64 && C.next(&v, &s, nullptr, "slice_ref =")) run(ref70, i, n, s);
                }
            }
            for (auto &s : s70) {
                C.note2.clear(); if (C.next(&v, &s, nullptr, "update<> of the upper half")) run(top, w / 2, w - w / 2, s);
                C.note2.clear(); if (C.next(&v, &s, nullptr, "update<> of the lower half")) run(low, 0, w / 2 + 1, s);
                C.note2.clear(); if (w > 2 && C.next(&v, &s, nullptr, "slice_ref<> = of the middle")) run(mid, 1, w - 2, s);
            }
            C.note2.clear();
        }
    }
};
void mc::run() { each_range(R{}); every_tab<E>(); }
