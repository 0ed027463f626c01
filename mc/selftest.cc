// prints reference-model results for tools/selftest.py to recompute with Python integers
#include "ref.hh"
#include <cstdio>
#include "text.hh"
using namespace ref;
static void out(const char *op, const RV &a, const RV &b, const RV &r) { printf("%s %s %s %s\n", op, a.desc().c_str(), b.desc().c_str(), r.desc().c_str()); }
int main() {
    std::vector<RV> vs;
    for (int w : {1, 2, 3}) for (int sg = 0; sg < 2; sg++) for (u64 x = 0; x < (1u << w); x++) for (u64 v = 0; v < (1u << w); v++) { RV r(w, sg, v); r.x[0] = x; r.trim(); vs.push_back(r); }
    for (int w : {4, 5}) for (int sg = 0; sg < 2; sg++) for (u64 v = 0; v < (1u << w); v++) vs.push_back(RV(w, sg, v));
    u64 s = 88172645463325252ull;
    auto rnd = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; };
    for (int w : {17, 63, 64, 65, 100, 128, 129, 192, 300}) for (int sg = 0; sg < 2; sg++) for (int k = 0; k < 7; k++) {
        RV r(w, sg);
        for (int i = 0; i < NW; i++) r.v[i] = k == 0 ? 0 : k == 1 ? ~0ull : k == 2 ? (i == (w - 1) / 64 ? 1ull << ((w - 1) % 64) : 0) : k == 3 ? (i ? 0 : 3) : rnd();
        if (k == 6) for (int i = 0; i < NW; i++) r.x[i] = rnd() & rnd();
        r.trim();
        vs.push_back(r);
    }
    for (auto &a : vs) for (auto &b : vs) {
        out("&", a, b, r_and(a, b)); out("|", a, b, r_or(a, b)); out("^", a, b, r_xor(a, b));
        for (char c : std::string("+-*/%")) { char t[2] = {c, 0}; out(t, a, b, arith(a, b, c, true)); }
        if (a.known() && b.known()) { int k = cmp(a, b); out("cmp", a, b, RV(2, false, (u64)(k + 1))); }
        out("match", a, b, onebit(case_eq(a, b)));
        if (b.w < 10 || b.words() == 1) { out("<<", a, b, shift(a, b, '<')); out(">>", a, b, shift(a, b, '>')); out(">>>", a, b, shift(a, b, 'a')); }
        if (a.w + b.w < 320) out("cat", a, b, cat(a, b));
    }
    for (auto &a : vs) {
        out("neg", a, a, neg(a)); out("not", a, a, r_not(a));
        out("rand", a, a, onebit(red_and(a))); out("ror", a, a, onebit(red_or(a))); out("rxor", a, a, onebit(red_xor(a)));
        for (int w : {1, 2, 5, 64, 65, 200}) { RV t(w, false); out("conv", a, t, conv(a, w, false)); }
    }
    // literals and texts
    for (auto &a : vs) for (char f : std::string("bodhs")) for (long w : {-1l, 0l, 3l, 40l}) {
        if (f == 's' && (!a.known() || a.w < 6)) continue;
        std::string t = text(a, f, w), h;
        for (unsigned char c : t) { char k[3]; snprintf(k, 3, "%02x", c); h += k; }
        printf("text %s %c:%ld -%s\n", a.desc().c_str(), f, w, h.c_str());
    }
    for (char b : std::string("bohd")) for (int k = 0; k < 400; k++) {
        std::string al = b == 'b' ? "01xXzZ_" : b == 'o' ? "01234567xZ_" : b == 'h' ? "0123456789abcdefABCDEFxXzZ_" : "0123456789_", d;
        for (int n = 1 + k % 90; n; n--) d += al[rnd() % al.size()];
        for (int w : {1, 7, 64, 65, 130}) { RV r = digits_value(d, b, w, false); printf("lit %c%s %d %s\n", b, d.c_str(), w, r.desc().c_str()); }
    }
}
