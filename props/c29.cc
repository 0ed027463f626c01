// a known result digit never depends on what the unknown digits of the operands stand for
#include "ops.hh"
using namespace mc;
inline bool literal(const char *n) { return !strcmp(n, "match") || !strcmp(n, "nmatch") || !strcmp(n, "bool"); }
// every way to make the unknown digits known; of many unknown digits: fills and single deviations
std::vector<RV> completions(const RV &a) {
    std::vector<int> at;
    for (int i = 0; i < a.w; i++) if (a.bit(i) > 1) at.push_back(i);
    std::vector<RV> o;
    const int n = (int)at.size();
    if (n <= 4) {
        for (u64 k = 0; k < (1ull << n); k++) { RV r = a; for (int j = 0; j < n; j++) r.setbit(at[j], (k >> j) & 1); o.push_back(r); }
        return o;
    }
    std::set<int> dev{0, 1, n / 2, n - 2, n - 1};
    for (int j = 0; j < n; j++) if (at[j] % 64 == 63 || at[j] % 64 == 0) dev.insert(j);
    for (int f = 0; f < 2; f++) {
        RV r = a; for (int j : at) r.setbit(j, f);
        o.push_back(r);
        for (int j : dev) { RV s = r; s.setbit(at[j], !f); o.push_back(s); }
    }
    { RV r = a; for (int j = 0; j < n; j++) r.setbit(at[j], j & 1); o.push_back(r); for (int j = 0; j < n; j++) r.setbit(at[j], !(j & 1)); o.push_back(r); }
    return o;
}
bool refines(const RV &known, const RV &e) {
    if (known.w != e.w) return false;
    for (int i = 0; i < ref::NW; i++) if ((known.v[i] ^ e.v[i] | known.x[i]) & ~e.x[i]) return false;
    return true;
}
struct Tab { std::string g; int W1, W2; bool S1, S2; std::vector<Op2> o; };
void pair_(const Tab &t) {
    if (!C.begin(t.g)) return;
    int lv = C.thorough ? 1 : 0;
    auto as = vals(true, t.W1, t.S1, lv), bs = vals(true, t.W2, t.S2, lv);
    if (t.W1 + t.W2 > 8) { thin(as, C.thorough ? 160 : 60); thin(bs, C.thorough ? 100 : 44); }
    if (t.W1 == t.W2) for (auto a : as) if (!a.known()) { a.sg = t.S2; bs.push_back(a); if (bs.size() > 120) break; }
    C.states += as.size() + bs.size();
    std::vector<std::vector<RV>> ca, cb;
    for (auto &a : as) ca.push_back(completions(a));
    for (auto &b : bs) cb.push_back(completions(b));
    u64 n = 0;
    for (auto &op : t.o) if (op.f && !literal(op.name)) for (size_t i = 0; i < as.size(); i++) for (size_t j = 0; j < bs.size(); j++) {
        const RV &a = as[i], &b = bs[j];
        if (a.known() && b.known()) continue;
        if (!C.next(&a, &b, nullptr, op.name)) continue;
        try {
            RV e = op.f(a, b);
            C.outcome(e.hash());
            bool any = false;
            for (int k = 0; k < ref::NW; k++) { RV all = ref::allx(e.w); any |= (~e.x[k] & all.x[k]) != 0; }
            if (!any) continue;  // nothing known, nothing promised
            for (auto &p : ca[i]) for (auto &q : cb[j]) {
                RV r = op.f(p, q);
                n++;
                if (!refines(r, e)) { C.fail(e.bin() + " but " + r.bin() + " for " + p.bin() + " and " + q.bin()); goto next; }
            }
            if (C.samples.size() < 12) C.sample(e.bin());
        next:;
        } catch (Changed &) { C.fail("an operand changed"); }
    }
    C.extra["completions_compared"] += n;
}
void one_(int W, bool S, const std::vector<Op1> &o) {
    if (!C.begin("one " + tn(true, W, S))) return;
    auto as = sg(corner4x(W, C.thorough ? 3 : 2), S);
    C.states += as.size();
    u64 n = 0;
    for (auto &op : o) if (op.f && !literal(op.name)) for (auto &a : as) {
        if (!C.next(&a, nullptr, nullptr, op.name)) continue;
        RV e = op.f(a);
        C.outcome(e.hash());
        for (auto &p : completions(a)) { RV r = op.f(p); n++; if (!refines(r, e)) { C.fail(e.bin() + " but " + r.bin() + " for " + p.bin()); break; } }
    }
    C.extra["completions_compared"] += n;
}
struct One { template <int W, bool S> void operator()() { one_(W, S, ops1<VT<true, W, S>>()); } };
struct P { template <int W1, bool S1, int W2, bool S2> void operator()() {
    pair_({pn(true, {W1, S1, W2, S2}), W1, W2, S1, S2, ops2<VT<true, W1, S1>, VT<true, W2, S2>>()});
} };
void mc::run() { each_width(One{}); each_pair(P{}); }
