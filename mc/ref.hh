// Reference model: a vector of four-state bits with plain, boring semantics (IEEE 1800).
// Nothing in here uses /repo.  A bit is 0, 1, x (x=1,v=0) or z (x=1,v=1).
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

namespace ref {
using u64 = uint64_t;
using u128 = unsigned __int128;
constexpr int NW = 10;  // up to 640 bits

struct RV {
    int w = 1;
    bool sg = false;
    u64 v[NW] = {};
    u64 x[NW] = {};
    RV() = default;
    RV(int w_, bool s_, u64 lo = 0) : w(w_), sg(s_) { v[0] = lo; trim(); }
    int words() const { return (w + 63) / 64; }
    void trim() {
        for (int i = 0; i < NW; i++) {
            int lo = i * 64;
            u64 m = w >= lo + 64 ? ~0ull : (w <= lo ? 0 : (~0ull >> (64 - (w - lo))));
            v[i] &= m;
            x[i] &= m;
        }
    }
    // 0,1,2=x,3=z ; outside the vector: x
    int bit(long i) const {
        if (i < 0 || i >= w) return 2;
        bool b = (v[i / 64] >> (i % 64)) & 1, m = (x[i / 64] >> (i % 64)) & 1;
        return m ? (b ? 3 : 2) : b;
    }
    void setbit(long i, int t) {
        if (i < 0 || i >= w) return;
        u64 k = 1ull << (i % 64);
        if (t == 1 || t == 3) v[i / 64] |= k; else v[i / 64] &= ~k;
        if (t >= 2) x[i / 64] |= k; else x[i / 64] &= ~k;
    }
    bool known() const { for (u64 a : x) if (a) return false; return true; }
    bool zero() const { for (u64 a : v) if (a) return false; return true; }  // of v only
    bool msb() const { return (v[(w - 1) / 64] >> ((w - 1) % 64)) & 1; }
    bool same(const RV &o) const {
        return w == o.w && !memcmp(v, o.v, sizeof v) && !memcmp(x, o.x, sizeof x);
    }
    bool operator<(const RV &o) const {
        if (w != o.w) return w < o.w;
        int c = memcmp(v, o.v, sizeof v);
        return c ? c < 0 : memcmp(x, o.x, sizeof x) < 0;
    }
    std::string bin() const {
        std::string s;
        for (int i = w - 1; i >= 0; i--) s += "01xz"[bit(i)];
        return s;
    }
    std::string desc() const { return std::to_string(w) + (sg ? "'sb" : "'b") + bin(); }
    u64 hash() const {
        u64 h = 1469598103934665603ull ^ (u64)w;
        for (int i = 0; i < NW; i++) { h = (h ^ v[i]) * 1099511628211ull; h ^= h >> 29;
                                       h = (h ^ x[i]) * 1099511628211ull; h ^= h >> 31; }
        return h;
    }
};

inline RV allx(int w, bool sg = false) { RV r(w, sg); for (int i = 0; i < NW; i++) r.x[i] = ~0ull; r.trim(); return r; }
inline RV allz(int w, bool sg = false) { RV r = allx(w, sg); for (int i = 0; i < NW; i++) r.v[i] = r.x[i]; return r; }
inline RV onebit(int t) { RV r(1, false); r.setbit(0, t); return r; }

// extend / truncate: sign-extension replicates the top bit whatever it is (0,1,x,z)
inline RV resize(const RV &a, int w, bool signext, bool sg) {
    RV r(w, sg);
    for (int i = 0; i < w; i++) r.setbit(i, i < a.w ? a.bit(i) : (signext ? a.bit(a.w - 1) : 0));
    return r;
}
// fast path for known-only resizing (same result)
inline RV conv(const RV &a, int w, bool sg) { return resize(a, w, a.sg, sg); }
struct Pair { RV a, b; int w; bool sg; };
inline Pair balance(const RV &a, const RV &b) {
    Pair p;
    p.w = a.w > b.w ? a.w : b.w;
    p.sg = a.sg && b.sg;
    p.a = a.w == p.w ? a : resize(a, p.w, p.sg, p.sg);
    p.b = b.w == p.w ? b : resize(b, p.w, p.sg, p.sg);
    p.a.sg = p.b.sg = p.sg;
    return p;
}
inline int t_and(int a, int b) { if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; return 2; }
inline int t_or(int a, int b) { if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; return 2; }
inline int t_xor(int a, int b) { if (a > 1 || b > 1) return 2; return a ^ b; }
inline int t_not(int a) { return a > 1 ? 2 : !a; }
template <class F> RV bitwise(const RV &a, const RV &b, F f) {
    Pair p = balance(a, b);
    RV r(p.w, p.sg);
    for (int i = 0; i < p.w; i++) r.setbit(i, f(p.a.bit(i), p.b.bit(i)));
    return r;
}
inline RV r_and(const RV &a, const RV &b) { return bitwise(a, b, t_and); }
inline RV r_or(const RV &a, const RV &b) { return bitwise(a, b, t_or); }
inline RV r_xor(const RV &a, const RV &b) { return bitwise(a, b, t_xor); }
inline RV r_not(const RV &a) { RV r(a.w, false); for (int i = 0; i < a.w; i++) r.setbit(i, t_not(a.bit(i))); return r; }
// reductions
inline int red_and(const RV &a) { int t = 1; for (int i = 0; i < a.w; i++) t = t_and(t, a.bit(i)); return t; }
inline int red_or(const RV &a) { int t = 0; for (int i = 0; i < a.w; i++) t = t_or(t, a.bit(i)); return t; }
inline int red_xor(const RV &a) { int t = 0; for (int i = 0; i < a.w; i++) t = t_xor(t, a.bit(i)); return t; }

// word arithmetic on known values
inline void add_w(u64 *r, const u64 *a, const u64 *b, bool cin = false) {
    u128 c = cin;
    for (int i = 0; i < NW; i++) { c += (u128)a[i] + b[i]; r[i] = (u64)c; c >>= 64; }
}
inline RV neg(const RV &a) {
    if (!a.known()) return allx(a.w, a.sg);
    RV r(a.w, a.sg), n, z;
    for (int i = 0; i < NW; i++) n.v[i] = ~a.v[i];
    add_w(r.v, n.v, z.v, true);
    r.trim();
    return r;
}
inline int ucmp(const RV &a, const RV &b) {
    for (int i = NW - 1; i >= 0; i--) if (a.v[i] != b.v[i]) return a.v[i] < b.v[i] ? -1 : 1;
    return 0;
}
inline RV shl(const RV &a, u64 n) { RV r(a.w, a.sg); for (int i = 0; i < a.w; i++) if ((u64)i >= n) r.setbit(i, a.bit(i - (long)n)); return r; }
inline RV shr(const RV &a, u64 n) { RV r(a.w, a.sg); for (int i = 0; i < a.w; i++) r.setbit(i, n < (u64)(a.w - i) ? a.bit(i + (long)n) : 0); return r; }
inline RV sar(const RV &a, u64 n) { RV r(a.w, a.sg); for (int i = 0; i < a.w; i++) r.setbit(i, n < (u64)(a.w - i) ? a.bit(i + (long)n) : a.bit(a.w - 1)); return r; }
inline RV mul_u(const RV &a, const RV &b) {  // same width
    RV r(a.w, a.sg);
    int n = a.words();
    for (int i = 0; i < n; i++) {
        u64 carry = 0;
        for (int j = 0; i + j < n; j++) {
            u128 t = (u128)a.v[i] * b.v[j] + r.v[i + j] + carry;
            r.v[i + j] = (u64)t;
            carry = (u64)(t >> 64);
        }
    }
    r.trim();
    return r;
}
inline int highbit(const RV &a) { for (int i = a.w - 1; i >= 0; i--) if ((a.v[i / 64] >> (i % 64)) & 1) return i; return -1; }
inline void divmod_u(const RV &a, const RV &b, RV &q, RV &r) {  // same width, b != 0
    q = RV(a.w, a.sg); r = RV(a.w, a.sg);
    if (a.w <= 64) { q.v[0] = a.v[0] / b.v[0]; r.v[0] = a.v[0] % b.v[0]; return; }
    // restoring division, one bit at a time, on NW words (one word wider than any operand)
    RV rem; rem.w = NW * 64;
    for (int i = highbit(a); i >= 0; i--) {
        for (int k = NW - 1; k >= 0; k--) rem.v[k] = (rem.v[k] << 1) | (k ? rem.v[k - 1] >> 63 : (u64)(a.bit(i) & 1));
        if (ucmp(rem, b) >= 0) {
            u64 nb[NW]; for (int k = 0; k < NW; k++) nb[k] = ~b.v[k];
            add_w(rem.v, rem.v, nb, true);
            q.setbit(i, 1);
        }
    }
    memcpy(r.v, rem.v, sizeof r.v);
    r.trim();
}
// op: '+','-','*','/','%'   four: four-state (x on division by zero) or two-state (0)
inline RV arith(const RV &a0, const RV &b0, char op, bool four) {
    int w = a0.w > b0.w ? a0.w : b0.w;
    bool sg = a0.sg && b0.sg;
    if (!a0.known() || !b0.known()) return allx(w, sg);
    Pair p = balance(a0, b0);
    RV r(p.w, p.sg);
    switch (op) {
        case '+': add_w(r.v, p.a.v, p.b.v); r.trim(); return r;
        case '-': { u64 n[NW]; for (int i = 0; i < NW; i++) n[i] = ~p.b.v[i]; add_w(r.v, p.a.v, n, true); r.trim(); return r; }
        case '*': r = mul_u(p.a, p.b); r.sg = p.sg; return r;
        default: break;
    }
    if (p.b.zero()) return four ? allx(p.w, p.sg) : r;
    bool na = p.sg && p.a.msb(), nb = p.sg && p.b.msb();
    RV A = na ? neg(p.a) : p.a, Bv = nb ? neg(p.b) : p.b, q, m;
    divmod_u(A, Bv, q, m);
    if (op == '/') { r = (na != nb) ? neg(q) : q; } else { r = na ? neg(m) : m; }
    r.sg = p.sg; r.trim();
    return r;
}
// -1,0,1 of known values
inline int cmp(const RV &a, const RV &b) {
    Pair p = balance(a, b);
    if (p.sg && p.a.msb() != p.b.msb()) return p.a.msb() ? -1 : 1;
    return ucmp(p.a, p.b);
}
inline bool case_eq(const RV &a, const RV &b) { Pair p = balance(a, b); return p.a.same(p.b); }
// shift amount: unsigned value, saturated
inline u64 amount(const RV &n) { for (int i = 1; i < NW; i++) if (n.v[i]) return ~0ull; return n.v[0]; }
inline RV shift(const RV &a, const RV &n, char op) {  // '<' '>' 'a'
    if (!a.known() || !n.known()) return allx(a.w, a.sg);
    u64 k = amount(n);
    if (op == '<') return shl(a, k);
    if (op == '>' || !a.sg) return shr(a, k);
    return sar(a, k);
}
inline RV cat(const RV &a, const RV &b) {
    RV r(a.w + b.w, false);
    for (int i = 0; i < b.w; i++) r.setbit(i, b.bit(i));
    for (int i = 0; i < a.w; i++) r.setbit(b.w + i, a.bit(i));
    return r;
}
// storage positions [lo, lo+n) ; outside -> fill (2 = x for four-state, 0 for two-state)
inline RV part(const RV &a, long lo, int n, int fill) {
    RV r(n, false);
    for (int i = 0; i < n; i++) { long k = lo + i; r.setbit(i, (k < 0 || k >= a.w) ? fill : a.bit(k)); }
    return r;
}
inline RV put(const RV &a, long lo, int n, const RV &src) {
    RV r = a;
    for (int i = 0; i < n; i++) r.setbit(lo + i, i < src.w ? src.bit(i) : 0);
    return r;
}
}  // namespace ref
