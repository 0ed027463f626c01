// independent operations on different threads: every pair of operations, every schedule of the accesses that conflict
#include "ops.hh"
#include "sched.hh"
#include <utility>
using namespace mc;
// ------------------------------------------------------------------ the operations
constexpr int NV = 3;
template <class T> struct Pool { static inline T a[NV], b[NV]; };  // operands: shared by all threads, only read
inline u64 h_(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h; }
inline u64 hs(const std::string &s) { u64 h = s.size(); for (unsigned char c : s) h = h_(h, c); return h; }
template <class T> u64 ht(const T &t) {
    if constexpr (std::is_convertible_v<T, std::string>) return hs(t);
    else if constexpr (std::is_integral_v<T>) return (u64)t;
    else return dec(t).hash();
}
struct Case { std::string name; u64 (*f)(int); bool more = false; };
std::vector<Case> cases;
template <class T, class L> void add(const char *n, L) {
    cases.push_back({tn(T::is_4state, T::size, T::is_signed) + " " + n, [](int k) -> u64 { return L{}(Pool<T>::a[k], Pool<T>::b[k], k); }});
}
template <class T> void fill() {
    auto v = vals(T::is_4state, T::size, T::is_signed, 1);
    for (int k = 0; k < NV; k++) { Pool<T>::a[k] = enc<T>(v[(v.size() * (2 * k + 1) / (2 * NV)) % v.size()]); Pool<T>::b[k] = enc<T>(v[(v.size() * k / NV + 3) % v.size()]); }
    if (T::is_4state) { RV x = v.back(); x.setbit(0, 2); Pool<T>::a[2] = enc<T>(x); }
}
template <bool F, int W, bool S, bool full> void vec() {
    using T = VT<F, W, S>;
    fill<T>();
#define OP(n, ...) add<T>(n, [](const T &a, const T &b, int k) -> u64 { (void)a; (void)b; (void)k; return ht(__VA_ARGS__); });
    OP("str b", a.str("b")) OP("str h", a.str("h")) OP("str o", a.str("o")) OP("str d", a.str("d")) OP("str s", b.str("s")) OP("str 40d", a.str("40d")) OP("str 0h", a.str("0h")) OP("str 300b", b.str("300b"))
    OP("literal h", T(std::string_view(k ? "'h1234567_89abcDEF0fedcba98" : "'hf"))) OP("literal d", T(std::string_view(k ? "'d123456789012345678901234567890" : "8'd77"))) OP("literal b", T(std::string_view(k ? "'b1010_1100" : "'b0"))) OP("literal text", T(std::string_view(k ? "a text" : "z"))) OP("literal o", T(std::string_view(k ? "'o7654" : "'o1")))
    OP("+", a + b) OP("-", a - b) OP("*", a * b) OP("/", a / b) OP("%", a % b) OP("<<", a << b) OP(">>", a >> b)
    OP("==", a == b) OP("<", a < b) OP("[]", a[k * W / 2]) OP("[] outside", a[W + k]) OP("slice outside", (a.template slice<8>(W + 3 + k, W - 4 + k)))
    OP("set", [&] { T t = a; t.set(k, true); t.set(W - 1, false); t.set(W + k, true); return t; }()) OP("update", [&] { T t = a; t.update(W / 2 + k, k, b); return t; }())
    OP("default", T()) OP("increment", [&] { T t = a; ++t; t--; ++t; return t; }())
    if constexpr (full) {
        OP("&", a & b) OP("|", a | b) OP("^", a ^ b) OP("~", ~a) OP("neg", -a) OP("&=", [&] { T t = a; t &= b; return t; }()) OP("^=", [&] { T t = a; t ^= b; return t; }())
        OP("<=", a <= b) OP("!=", a != b) OP("match", a.match(b)) OP("bool", (bool)a) OP("to_uint64", a.to_uint64()) OP("ashr", a.ashr(b))
        OP("slice", (a.template slice<(W + 1) / 2>(W - 1 - k, W - 1 - k - (W + 1) / 2 + 1))) OP("concat", a.concat(b, a)) OP("get", a.get(b)) OP("extend", a.template extend<W + 67>())
        OP("r_and", a.r_and()) OP("r_xor", a.r_xor()) OP("from an integer", [&] { T t; t = (int64_t)-7 * k; return t; }()) OP("slice_ref", [&] { T t = a; t.slice_ref(k + 2, k) = b; return t; }())
        OP("unpack", [&] { T t, u; VT<F, 3, false> x; a.concat(b, x).unpack(t, u, x); return (ht(t) << 1) ^ ht(u); }())
    }
#undef OP
}
// the rest of the interface; each of these is run against itself and against every operation it shares memory with
template <class T, class L> void add2(const char *n, L) {
    if constexpr (requires(const T &a, const T &b, int k) { L{}(a, b, k); })
        cases.push_back({tn(T::is_4state, T::size, T::is_signed) + " " + n, [](int k) -> u64 { return L{}(Pool<T>::a[k], Pool<T>::b[k], k); }, true});
}
template <class X> u64 hx(const X &x) {
    if constexpr (requires { x.size_; }) { u64 h = 0; for (auto w : x.values) h = h_(h, w); return h; }
    else return ht(x);
}
template <class T> decltype(auto) num(const T &t) { if constexpr (T::is_4state) return t.value.value; else return t.value; }
template <class T> u64 bad_lit(int k) {
    try { return ht(T(std::string_view(k ? "'q12" : "'hxyzg"))); } catch (const std::exception &e) { return hs(e.what()); }
}
template <bool F, int W, bool S, bool fresh> void rest() {
    using T = VT<F, W, S>;
    using U = VT<!F, W, !S>;  // the other kind of vector
    if (fresh) fill<T>();
    fill<U>();
#define OP(n, ...) add2<T>(n, [](const auto &a, const auto &b, int k) -> decltype((__VA_ARGS__), u64()) { (void)a; (void)b; (void)k; return hx(__VA_ARGS__); });
#define IP(n, ...) add2<T>(n, [](const T &a, const T &b, int k) -> u64 { (void)b; (void)k; T t = a; __VA_ARGS__; return ht(t); });
    OP(">", a > b) OP(">=", a >= b) OP("nmatch", a.nmatch(b)) OP("ashl", a.ashl(b)) OP("!", !a) OP("unary +", +a) OP("&&", a && b) OP("||", a || b)
    OP("r_or", a.r_or()) OP("r_nor", a.r_nor()) OP("r_nand", a.r_nand()) OP("r_xnor", a.r_xnor())
    OP("to_signed", a.to_signed()) OP("to_unsigned", a.to_unsigned()) OP("to_num", a.to_num()) OP("popcount", a.popcount()) OP("highest bit", a.highest_bit()) 
    OP("+ int", a + (k * 77 - 5)) OP("- int64", a - (int64_t)(k * 77 - 5)) OP("* unsigned", a * (k + 3u)) OP("/ int", a / (k + 3)) OP("% uint64", a % (uint64_t)(k + 3)) OP("== int", a == k) OP("< int", a < k - 1) OP(">= int", a >= k - 1) OP("& int", a & (k - 1)) OP("| uint64", a | ((uint64_t)k << 35)) OP("^ bool", a ^ (k == 1))
    OP("<< int", a << (k * 33)) OP(">> int", a >> (k * 33))
    OP("mixed +", a + Pool<U>::a[k]) OP("mixed *", a * Pool<U>::a[k]) OP("mixed /", a / Pool<U>::a[k]) OP("mixed %", a % Pool<U>::a[k]) OP("mixed <", a < Pool<U>::a[k]) OP("mixed ==", a == Pool<U>::a[k]) OP("mixed &", a & Pool<U>::a[k]) OP("mixed match", a.match(Pool<U>::a[k]))
    if constexpr (F) OP("mixed concat", a.concat(Pool<U>::a[k], Pool<U>::b[k]))
    OP("convert", U(a)) OP("widen", VT<F, W + 70, S>(a)) OP("narrow", VT<F, (W + 1) / 2, !S>(a)) OP("convert widen", VT<!F, W + 70, !S>(a))
    OP("constant slice", a.template slice<W - 1, W / 2>()) OP("constant []", a.template get<W / 2>())
    OP("str 3d", a.str("3d")) OP("str 0b", a.str("0b")) OP("str 7s", a.str("7s")) OP("str 025o", a.str("025o")) OP("str 50h", b.str("50h")) OP("str b of x", Pool<U>::a[k].str("b")) OP("str d of x", Pool<U>::a[k].str("d"))
    OP("bad literal", bad_lit<T>(k))
    OP("signed literal", T(std::string_view(k ? "200'sd123" : "-'sh7f"))) OP("x literal", T(std::string_view(k ? "'bx1z0" : "'hxz")))
    IP("|=", t |= b) IP("<<=", t <<= b) IP(">>=", t >>= b)
    IP("constant update", (t.template update<W - 1, W / 2>(b))) IP("set a bit vector", t.set(k, b[0]))  IP("= int", t = k * 1000 - 1) IP("= uint64", t = ~(uint64_t)k)  IP("= wider", t = b.concat(b)) 
#undef OP
#undef IP
    // the number under the vector
    if constexpr (W > 64 && requires(const T &t) { logic::big_num<W, S>(num(t)); }) {
        using B = logic::big_num<W, S>;
        auto put = [&](const char *w, u64 (*f)(int)) { cases.push_back({"number of " + tn(F, W, S) + " " + w, f, true}); };
#define N(w, e) put(w, [](int k) -> u64 { const B a = num(Pool<T>::a[k]), b = num(Pool<T>::b[k]); (void)b; auto r = (e); u64 h = 0; if constexpr (std::is_class_v<decltype(r)>) { if constexpr (requires { r.values; }) { for (auto q : r.values) h = h_(h, q); } else h = hs(r); } else h = (u64)r; return h; });
        N("/", a / b) N("%", a % b) N("*", a * b) N("-", a - b) N("neg", -a) N("popcount", a.popcount()) N("highest_bit", a.highest_bit()) N("<<", a << (uint64_t)k) N(">>", a >> (uint64_t)(k * 40)) N("==", a == b) N("<", a < b)
#undef N
    }
}
template <class A> struct Arr { static inline A a[NV]; static inline LG<4> ix[8]; };
template <class E> void packed() {
    using P = logic::packed_array<E, 5, 2>;
    using Q = Arr<P>;
    fill<E>();
    for (int i = 0; i < 8; i++) Q::ix[i] = enc<LG<4>>(RV(4, false, i));
    for (int k = 0; k < NV; k++) for (int i = 2; i <= 5; i++) Q::a[k].update(Q::ix[i], Pool<E>::a[(k + i) % NV]);
    std::string n = "packed array of " + tn(E::is_4state, E::size, E::is_signed) + " ";
    auto put = [&](const char *w, u64 (*f)(int)) { cases.push_back({n + w, f}); };
    put("read", [](int k) -> u64 { const P &p = Q::a[k]; return h_(ht(p[Q::ix[2 + k]]), ht(p[Q::ix[5 - k]])); });
    put("read outside", [](int k) -> u64 { const P &p = Q::a[k]; return h_(ht(p[Q::ix[k & 1]]), ht(p[Q::ix[6 + k % 2]])); });
    put("write", [](int k) -> u64 { P p = Q::a[k]; p.update(Q::ix[3 + k % 2], Pool<E>::b[k]); p.update(Q::ix[6], Pool<E>::b[k]); p.template update<2, 2>(Pool<E>::a[k]); return ht(p); });
    put("slice", [](int k) -> u64 { const P &p = Q::a[k]; return ht(p.template slice_array<4, 3>()); });
    put("str", [](int k) -> u64 { const P &p = Q::a[k]; return h_(hs(p.str("h")), hs(p.str("b"))); });
}
template <class E> void unpacked() {
    using P = logic::unpacked_array<E, 5, 2>;
    using Q = Arr<P>;
    fill<E>();
    for (int k = 0; k < NV; k++) { Q::a[k].template update<2>(Pool<E>::a[k]); Q::a[k].template update<3>(Pool<E>::b[k]); Q::a[k].template update<5>(Pool<E>::a[(k + 1) % NV]); }
    std::string n = "unpacked array of " + tn(E::is_4state, E::size, E::is_signed) + " ";
    auto put = [&](const char *w, u64 (*f)(int)) { cases.push_back({n + w, f}); };
    put("read", [](int k) -> u64 { const P &p = Q::a[k]; return h_(ht(p[2 + k]), ht(p[5 - k])); });
    put("read outside", [](int k) -> u64 { const P &p = Q::a[k]; return h_(ht(p[k - 3]), ht(p[k + 6])); });
    put("write", [](int k) -> u64 { P p = Q::a[k]; p.template update<4>(Pool<E>::b[k]); p.template update<9>(Pool<E>::b[k]); return h_(ht(p[4]), ht(p[9])); });
    put("copy", [](int k) -> u64 { P p = Q::a[k]; P q; q = p; return h_(ht(q[4]), ht(q[5])); });
}
void build() {
    vec<true, 8, false, true>(); vec<false, 8, true, true>(); vec<true, 64, true, false>(); vec<true, 65, false, true>(); vec<false, 65, true, false>(); vec<true, 130, true, false>(); vec<false, 130, false, true>();
    if (C.thorough) { vec<true, 1, false, true>(); vec<false, 33, false, true>(); vec<true, 33, true, true>(); vec<false, 64, false, true>(); vec<true, 128, false, true>(); vec<true, 200, false, true>(); }
    rest<true, 8, false, false>(); rest<false, 64, true, true>(); rest<true, 65, false, false>(); rest<false, 130, false, false>(); rest<true, 200, true, true>(); rest<true, 33, true, true>();
    packed<LG<8>>(); packed<BT<8>>(); packed<LG<40>>(); packed<BT<64>>(); unpacked<LG<8>>(); unpacked<BT<8>>(); unpacked<LG<65>>(); unpacked<BT<100, true>>();
}
// ------------------------------------------------------------------ exploration
int sel[3];
constexpr int script[3][2] = {{0, 1}, {1, 2}, {2, 0}};  // operand sets each thread uses, one after the other
void body(int t) { for (int i = 0; i < 2; i++) { u64 r = cases[sel[t]].f(script[t][i]); sched::depth++; sched::O->res[t][i] = r; sched::depth--; } }
void alone(int) { u64 r = cases[sel[0]].f(sel[1]); sched::depth++; sched::O->res[0][0] = r; sched::depth--; }
void in_turn(int) { for (int i = 0; i < 2; i++) cases[sel[0]].f(script[sel[1]][i]); }
std::vector<std::array<u64, NV>> want;
std::string bad;
u64 schedules, points, capped, conflicting, executions, maxpoints;
bool check(int n) {
    auto &o = *sched::O;
    executions++;
    if (o.status == 4) { printf("ERROR %s\n", o.msg); fflush(stdout); C.extra["not_decided"]++; return true; }
    if (o.status != 1) { bad = o.msg; return false; }
    for (int t = 0; t < n; t++) for (int i = 0; i < 2; i++) {
        C.outcome(o.res[t][i]);
        if (o.res[t][i] != want[sel[t]][script[t][i]]) {
            bad = "thread " + std::to_string(t) + " (" + cases[sel[t]].name + ", call " + std::to_string(i + 1) + ") got another result than the same call alone";
            return false;
        }
    }
    return true;
}
std::string shown() {
    std::string s = " schedule";
    for (int i = 0; i < sched::O->nchoice; i++) s += " " + std::to_string(sched::O->ch[i].c);
    return s;
}
// depth-first over all choices at conflicting accesses with at most `bound` preemptions
void explore(int n, int bound, u64 cap) {
    std::string name = cases[sel[0]].name;
    for (int t = 1; t < n; t++) name += " || " + cases[sel[t]].name;
    if (!C.begin(name)) return;
    if (!C.next()) return;
    std::set<uintptr_t> pts;
again:
    std::vector<uint8_t> prefix;
    u64 mine = 0;
    for (;;) {
        sched::execute(n, body, prefix, pts);
        auto &o = *sched::O;
        schedules++; mine++;
        C.tick++;
        points += o.nchoice;
        maxpoints = std::max<u64>(maxpoints, o.nchoice);
        if (!check(n)) { C.note2 = shown(); C.fail(bad); C.note2.clear(); return; }
        bool more = false;
        for (int i = 0; i < o.nconf; i++) more |= pts.insert(o.conf[i]).second;
        if (more) { conflicting += 1; goto again; }
        // a tree in which nearly every pair conflicts must still get an answer in time
        if (mine >= cap || (!C.thorough && schedules > 60000 && mine >= 8)) { capped++; break; }
        // next branch
        int pre[sched::MAXC + 1];
        pre[0] = 0;
        for (int i = 0; i < o.nchoice; i++) pre[i + 1] = pre[i] + (o.ch[i].pre && o.ch[i].c);
        int i = o.nchoice - 1;
        for (; i >= 0; i--) {
            if (o.ch[i].c + 1 >= o.ch[i].n) continue;
            if (o.ch[i].pre && pre[i] + 1 > bound) continue;
            break;
        }
        if (i < 0) break;
        prefix.resize(i + 1);
        for (int k = 0; k < i; k++) prefix[k] = o.ch[k].c;
        prefix[i] = o.ch[i].c + 1;
    }
    C.paths += mine;
    if (getenv("C21_LIST") && mine > 2) {
        printf("%s: %lu schedules, points:", name.c_str(), mine);
        for (auto p : pts) { Dl_info di{}; dladdr((void *)p, &di); printf(" %lx(%s)", p, di.dli_sname ? di.dli_sname : "?"); }
        puts("");
    }
}
void mc::run() {
    build();
    const int N = cases.size();
    C.extra["operations"] = SHARD == 0 ? N : 0;
    if (getenv("C21_LIST")) for (int i = 0; i < N; i++) printf("%d %s\n", i, cases[i].name.c_str());
    // what each call gives on its own, in a process where nothing ran before
    want.resize(N);
    for (int i = 0; i < N; i++) for (int k = 0; k < NV; k++) {
        sel[0] = i; sel[1] = k;
        sched::execute(1, alone, {}, {});
        C.tick++;
        if (sched::O->status != 1) { if (C.begin(cases[i].name) && C.next()) C.fail(sched::O->msg); return; }
        want[i][k] = sched::O->res[0][0];
    }
    C.states += SHARD == 0 ? N * NV : 0;
    // the memory each thread's calls touch outside their own stacks and allocations, for the further operations
    std::vector<std::map<uintptr_t, bool>> foot(N);
    std::vector<bool> wide(N);
    for (int i = 0; i < N; i++) for (int t = 0; t < 3; t++) {
        sel[0] = i; sel[1] = t;
        sched::execute(1, in_turn, {}, {});
        C.tick++;
        if (sched::O->status != 1 || sched::O->nfoot < 0) { wide[i] = true; continue; }
        for (int k = 0; k < sched::O->nfoot; k++) foot[i][sched::O->foot[k].a] |= sched::O->foot[k].w;
    }
    auto meet = [&](int i, int j) {
        if (i == j || wide[i] || wide[j]) return true;
        for (auto &[a, w] : foot[i]) if (auto it = foot[j].find(a); it != foot[j].end() && (w || it->second)) return true;
        return false;
    };
    // every pair of the basic operations; the further ones with every operation they can interfere with
    u64 n = 0, apart = 0;
    for (int i = 0; i < N; i++) for (int j = i; j < N; j++) {
        if (auto *o = getenv("C21_PAIR"); o && cases[i].name + "," + cases[j].name != o) continue;
        if ((cases[i].more || cases[j].more) && !meet(i, j)) { apart += SHARD == 0; continue; }
        if (n++ % NSHARD != SHARD) continue;
        sel[0] = i; sel[1] = j;
        explore(2, C.thorough ? 4 : 2, C.thorough ? 20000 : 2000);
    }
    if (C.thorough) for (int i = 0; i < N; i++) {
        if (i % NSHARD != SHARD) continue;
        for (int j : {i, (i + 1) % N, (i + 7) % N}) { sel[0] = sel[1] = i; sel[2] = j; explore(3, 2, 20000); }
    }
    C.extra["pairs_without_common_memory"] += apart;
    C.extra["schedules"] += schedules;
    C.extra["scheduling_points"] += points;
    C.extra["pairs_with_conflicting_accesses"] += conflicting;
    C.extra["pairs_cut_off_at_the_schedule_limit"] += capped;
}
