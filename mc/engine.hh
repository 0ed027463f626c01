// Explicit-state exploration engine: enumerates operand states, applies the real operation (the
// transition), and compares the resulting state with the reference model in ref.hh.
#pragma once
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

#include "logic/array.hh"
#include "logic/logic.hh"
#include "logic/struct.hh"
#include "logic/union.hh"
#include "ref.hh"

#ifndef SHARD
#define SHARD 0
#endif
#ifndef NSHARD
#define NSHARD 1
#endif

namespace mc {
using ref::RV;
using ref::u64;

template <int W, bool S = false> using LG = logic::logic<W - 1, 0, S>;
template <int W, bool S = false> using BT = logic::bit<W - 1, 0, S>;
template <bool F, int W, bool S> struct pick { using type = LG<W, S>; };
template <int W, bool S> struct pick<false, W, S> { using type = BT<W, S>; };
template <bool F, int W, bool S> using VT = typename pick<F, W, S>::type;

// ------------------------------------------------------------------ encode / decode
template <class B> void put_bits(B &b, const u64 *v) {  // B is a two-state vector
    constexpr int W = (int)B::size;
    if constexpr (W == 1) {
        b.value = (v[0] & 1) != 0;
    } else if constexpr (W <= 64) {
        if constexpr (B::is_signed)
            b.value = static_cast<decltype(b.value)>(static_cast<int64_t>(v[0] << (64 - W)) >> (64 - W));
        else
            b.value = static_cast<decltype(b.value)>(v[0]);
    } else {
        for (int i = 0; i < (W + 63) / 64; i++) b.value.values[i] = v[i];
    }
}
template <class T> T enc(const RV &a) {
    T t;
    if constexpr (T::is_4state) {
        put_bits(t.value, a.v);
        put_bits(t.xz_mask, a.x);
    } else {
        put_bits(t, a.v);
    }
    return t;
}
template <class B> void get_words(const B &b, u64 *o) {  // raw words incl. anything above the width
    constexpr int W = (int)B::size;
    if constexpr (W <= 64) o[0] = static_cast<u64>(static_cast<int64_t>(b.value));
    else for (int i = 0; i < (W + 63) / 64; i++) o[i] = b.value.values[i];
}
// raw content: words as stored. A clean vector has zero excess bits (unsigned / multi-word) or a
// sign-extended native holder (signed).
template <class B> bool clean_bits(const B &b, u64 *o) {
    constexpr int W = (int)B::size;
    get_words(b, o);
    if constexpr (W <= 64) {
        u64 raw = o[0];
        u64 m = ~0ull >> (64 - W);
        o[0] = raw & m;
        if constexpr (W == 1) return raw == o[0];
        if constexpr (W == 64) return true;
        if constexpr (B::is_signed)
            return raw == (u64)((int64_t)(raw << (64 - W)) >> (64 - W));
        // an unsigned holder of exactly the right size was sign-converted above only when signed
        u64 hm = sizeof(b.value) == 8 ? ~0ull : ((1ull << (8 * sizeof(b.value))) - 1);
        return (raw & hm) == o[0];
    } else {
        constexpr int n = (W + 63) / 64, ex = n * 64 - W;
        if constexpr (ex > 0) {
            u64 m = ~0ull >> ex;
            bool ok = (o[n - 1] & ~m) == 0;
            o[n - 1] &= m;
            return ok;
        }
        return true;
    }
}
template <class T> RV dec(const T &t, bool *clean = nullptr) {
    RV r((int)T::size, T::is_signed);
    bool c;
    if constexpr (T::is_4state) {
        c = clean_bits(t.value, r.v);
        c = clean_bits(t.xz_mask, r.x) && c;
    } else {
        c = clean_bits(t, r.v);
    }
    if (clean) *clean = c;
    return r;
}

// ------------------------------------------------------------------ context
inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

struct Fail { std::string group, what; u64 ord; u64 count; };
struct Ctx {
    bool thorough = false;
    std::string out, rgroup;
    u64 rord = 0;
    bool replay = false;
    u64 upto = ~0ull;  // with --upto: only the first transitions of the selected group
    u64 transitions = 0, states = 0, groups = 0, paths = 0;
    std::string group;
    u64 ord = 0;
    bool gsel = true, failed_here = false;
    const RV *op[4] = {};
    const char *note = "";
    std::string note2;
    std::map<std::string, Fail> fails;
    std::map<std::string, u64> kf;          // known findings hit
    std::map<std::string, std::string> kfx; // example
    std::set<std::string> kfon;             // known findings listed in the committed file
    std::map<std::string, u64> bygroup;
    std::vector<std::string> samples;
    std::map<std::string, u64> extra;
    std::vector<u64> bloom = std::vector<u64>(1 << 16);  // 2^22 bits: lower bound of distinct outcomes
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    volatile u64 tick = 0;

    bool begin(const std::string &g) {
        group = g;
        ord = 0;
        gsel = !replay || g == rgroup;
        if (gsel) groups++;
#ifdef MC_SAN
        trace = &traces[g];
#endif
        return gsel;
    }
    bool next(const RV *a = nullptr, const RV *b = nullptr, const RV *c = nullptr, const char *n = "") {
        ++ord;
        if ((ord & 63) == 0 || cut) stop_check();
        if (replay && (!gsel || (upto == ~0ull ? ord != rord : ord > upto))) return false;
        ++transitions;
        ++tick;
        op[0] = a; op[1] = b; op[2] = c;
        note = n;
        failed_here = false;
        return true;
    }
    std::string describe() const {
        std::string s = group;
        for (int i = 0; i < 3; i++) if (op[i]) s += std::string(i ? ", " : ": ") + op[i]->desc();
        if (note && *note) s += std::string(" ") + note;
        if (!note2.empty()) s += " " + note2;
        return s;
    }
    // a violation has been found a while ago, or the driver has run out of time: report what has been explored
    std::chrono::steady_clock::time_point first_fail{};
    volatile sig_atomic_t cut = 0;
    void stop_check() {
        if (replay) return;
        bool late = !fails.empty() && std::chrono::steady_clock::now() - first_fail > std::chrono::seconds(20);
        if (!cut && !late) return;
        extra[late ? "shards_stopped_after_a_violation" : "shards_cut_off"] = 1;
        write();
        _exit(0);
    }
    std::map<std::string, u64> traces;      // MC_SAN: order-dependent hash of everything observed, per group
    u64 *trace = nullptr;
    void outcome(u64 h) { if (trace) *trace = (*trace ^ h) * 0x100000001b3ull + 0x9e37; h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; bloom[(h >> 6) & 0xffff] |= 1ull << (h & 63); }
    u64 distinct() const { u64 n = 0; for (u64 b : bloom) n += __builtin_popcountll(b); return n; }
    void sample(const std::string &got) {
        if (samples.size() < 4 || (samples.size() < 12 && (transitions % 4099) == 0))
            samples.push_back(describe() + " -> " + got);
    }
    void fail(const std::string &what, bool fatal = false) {
#ifdef MC_SAN
        if (!fatal) return;  // this build only looks for traps, undefined behaviour and non-termination
#endif
        if (failed_here) return;
        failed_here = true;
        auto it = fails.find(group);
        if (fails.empty()) first_fail = std::chrono::steady_clock::now();
        if (it == fails.end()) fails[group] = Fail{group, describe() + " :: " + what, ord, 1};
        else it->second.count++;
    }
    void known(const std::string &id, const std::string &what) {
        kf[id]++;
        if (!kfx.count(id)) kfx[id] = describe() + " :: " + what;
    }
    // ---- comparison of a result with the reference
    template <class T> bool eq(const T &got, const RV &exp, const char *what = "") {
        if ((int)T::size != exp.w) {
            fail(std::string(what) + " width " + std::to_string(T::size) + " expected " + std::to_string(exp.w));
            return false;
        }
        bool clean;
        RV g = dec(got, &clean);
        outcome(g.hash());
        if (!g.same(exp)) { fail(std::string(what) + " got " + g.bin() + " expected " + exp.bin()); return false; }
        if (!clean) { fail(std::string(what) + " shows " + g.bin() + " but keeps residue above its width"); return false; }
        if (samples.size() < 12) sample(g.bin());
        return true;
    }
    // as eq, and the signedness of the result type follows the operands
    template <class T> bool eqt(const T &got, const RV &exp, const char *what = "") {
        if (T::is_signed != exp.sg) { fail(std::string(what) + " result signedness is " + (T::is_signed ? "signed" : "unsigned")); return false; }
        return eq(got, exp, what);
    }
    bool eqb(bool got, bool exp, const char *what = "") {
        outcome(got + 77);
        if (got != exp) { fail(std::string(what) + " got " + (got ? "true" : "false") + " expected " + (exp ? "true" : "false")); return false; }
        if (samples.size() < 12) sample(got ? "true" : "false");
        return true;
    }
    bool equ(u64 got, u64 exp, const char *what = "") {
        outcome(got * 31 + 5);
        if (got != exp) { fail(std::string(what) + " got " + std::to_string(got) + " expected " + std::to_string(exp)); return false; }
        if (samples.size() < 12) sample(std::to_string(got));
        return true;
    }
    bool eqs(const std::string &got, const std::string &exp, const char *what = "") {
        outcome(std::hash<std::string>{}(got));
        if (got != exp) { fail(std::string(what) + " got \"" + got + "\" expected \"" + exp + "\""); return false; }
        if (samples.size() < 12) sample("\"" + got + "\"");
        return true;
    }
    void write() {
        std::ofstream f(out);
        f << "{\"transitions\":" << transitions << ",\"states\":" << states << ",\"groups\":" << groups
          << ",\"paths\":" << paths << ",\"distinct\":" << distinct();
        f << ",\"fails\":[";
        bool first = true;
        for (auto &[k, v] : fails) {
            if (!first) f << ",";
            first = false;
            f << "{\"group\":\"" << jesc(v.group) << "\",\"ord\":" << v.ord << ",\"count\":" << v.count << ",\"what\":\"" << jesc(v.what) << "\"}";
        }
        f << "],\"known\":{";
        first = true;
        for (auto &[k, v] : kf) { if (!first) f << ","; first = false; f << "\"" << jesc(k) << "\":{\"n\":" << v << ",\"example\":\"" << jesc(kfx[k]) << "\"}"; }
        f << "},\"extra\":{";
        first = true;
        for (auto &[k, v] : extra) { if (!first) f << ","; first = false; f << "\"" << jesc(k) << "\":" << v; }
        f << "},\"traces\":{";
        first = true;
        for (auto &[k, v] : traces) { if (!first) f << ","; first = false; f << "\"" << jesc(k) << "\":\"" << v << "\""; }
        f << "},\"samples\":[";
        first = true;
        for (auto &s : samples) { if (!first) f << ","; first = false; f << "\"" << jesc(s) << "\""; }
        f << "]}\n";
        f.close();
    }
};
inline Ctx C;
inline void on_signal(int s) {
    // terminate with a failure record for the evaluation in progress
    C.failed_here = false;
    C.fail(std::string("terminated by signal ") + std::to_string(s) + (s == SIGFPE ? " (SIGFPE)" : s == SIGSEGV ? " (SIGSEGV)" : s == SIGABRT ? " (SIGABRT)" : ""), true);
    C.write();
    _exit(0);
}
inline void on_term(int) { C.cut = 1; }
inline u64 g_last_tick = 0;
inline int g_same = 0;
inline int g_hang_limit = 6;  // x 5 s
inline void on_alarm(int) {
    if (C.tick == g_last_tick) {
        if (++g_same >= g_hang_limit) {
            C.failed_here = false;
            C.fail("does not terminate", true);
            C.write();
            _exit(0);
        }
    } else { g_same = 0; g_last_tick = C.tick; }
}

// runs one history in a process of its own, so that it starts from the state of a program that has not used the library yet
template <class F> void fresh(F f) {
#ifdef MC_SAN
    f();
#else
    int p[2];
    if (pipe(p)) return;
    pid_t pid = fork();
    if (!pid) {
        itimerval none{};
        setitimer(ITIMER_REAL, &none, nullptr);
        for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS, SIGTRAP}) signal(s, SIG_DFL);
        alarm(20);
        signal(SIGALRM, SIG_DFL);
        C.fails.clear();
        f();
        std::string m = C.fails.empty() ? "" : C.fails.begin()->second.what;
        if (m.size() > 3000) m.resize(3000);
        if (write(p[1], m.data(), m.size()) < 0) _exit(3);
        _exit(m.empty() ? 0 : 2);
    }
    close(p[1]);
    std::string m;
    char b[4096];
    for (ssize_t k; (k = read(p[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR);) if (k > 0) m.append(b, k);
    close(p[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    C.outcome(0xf0 + st);
    if (WIFSIGNALED(st)) C.fail("in a fresh process: signal " + std::to_string(WTERMSIG(st)));
    else if (WEXITSTATUS(st)) C.fail("in a fresh process: " + m.substr(m.find(" :: ") == m.npos ? 0 : m.find(" :: ") + 4));
#endif
}

// ------------------------------------------------------------------ alphabets
inline void push(std::vector<RV> &o, std::set<RV> &seen, RV v) { v.trim(); if (seen.insert(v).second) o.push_back(v); }
inline std::vector<RV> all2(int w) { std::vector<RV> o; for (u64 i = 0; i < (1ull << w); i++) o.push_back(RV(w, false, i)); return o; }
inline std::vector<RV> all4(int w) {
    std::vector<RV> o;
    for (u64 x = 0; x < (1ull << w); x++) for (u64 i = 0; i < (1ull << w); i++) { RV r(w, false, i); r.x[0] = x; r.trim(); o.push_back(r); }
    return o;
}
inline std::vector<int> edges(int w, int level) {  // interesting bit positions
    std::set<int> s;
    auto add = [&](int p) { if (p >= 0 && p < w) s.insert(p); };
    for (int p : {0, 1, w - 1, w - 2, w / 2}) add(p);
    for (int b = 64; b < w; b += 64) { add(b); add(b - 1); if (level > 1) add(b + 1), add(b - 2), add(b + 31), add(b + 32), add(b + 33); }
    if (level > 0) { add(31); add(32); }
    if (level > 1) for (int p : {2, 3, 7, 8, 9, 15, 16, 17, 30, 33, 47, 62}) add(p);
    if (level > 2) for (int p = 0; p < w; p++) add(p);
    return {s.begin(), s.end()};
}
// two words of a long vector that cancel when they are added, xored or compared by accident: both only their top bit,
// all ones and one, the same bit
inline std::vector<RV> word_pairs(int w) {
    std::vector<RV> o;
    const int n = w / 64;  // whole words
    auto two = [&](int i, int j) {
        const u64 pat[][2] = {{1ull << 63, 1ull << 63}, {~0ull, 1}, {1, ~0ull}};
        for (auto &p : pat) { RV r(w, false); r.v[i] = p[0]; r.v[j] = p[1]; r.trim(); o.push_back(r); }
    };
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (n < 5 || j == i + 1 || (i == 0 && j == n - 1)) two(i, j);
    if (w % 64 && n) { RV r(w, false); r.v[0] = ~0ull; r.v[n] = 1; o.push_back(r); }
    return o;
}
// known values for a width; level 0 (tiny) .. 3 (large)
inline std::vector<RV> corner2(int w, int level) {
    if (w <= 4 || (level >= 1 && w <= 5) || (level >= 2 && w <= 6) || (level >= 3 && w <= 9)) return all2(w);
    std::vector<RV> o;
    std::set<RV> seen;
    auto ones = ref::allx(w); for (auto &k : ones.x) k = 0; for (int i = 0; i < w; i++) ones.setbit(i, 1);
    push(o, seen, RV(w, false, 0));
    push(o, seen, RV(w, false, 1));
    push(o, seen, ones);
    auto inv = [&](const RV &a) { RV r = a; for (int i = 0; i < w; i++) r.setbit(i, !a.bit(i)); return r; };
    auto es = edges(w, level);
    for (int p : es) { RV r(w, false); r.setbit(p, 1); push(o, seen, r); }          // walking one
    for (int p : es) { RV r(w, false); for (int i = 0; i <= p; i++) r.setbit(i, 1); push(o, seen, r); }  // low masks
    for (int p : es) { RV r(w, false); r.setbit(p, 1); push(o, seen, inv(r)); }      // walking zero
    for (int p : es) { RV r(w, false); for (int i = p; i < w; i++) r.setbit(i, 1); push(o, seen, r); }   // high masks
    for (u64 pat : {0xaaaaaaaaaaaaaaaaull, 0x0123456789abcdefull, 0xfedcba9876543210ull, 0x8000000000000001ull}) {
        RV r(w, false); for (int i = 0; i < ref::NW; i++) r.v[i] = pat; push(o, seen, r);
        if (level > 0) push(o, seen, inv(r));
    }
    for (u64 k : {2ull, 3ull, 5ull, 6ull, 7ull, 10ull, 42ull, 100ull, 255ull, 256ull, 1000003ull, 4294967295ull, 4294967296ull, 4294967297ull})
        if (level > 0 || k < 8) { RV r(w, false, k); push(o, seen, r); if (level > 1) push(o, seen, inv(r)); }
    if (level > 1 && w > 64) {  // products of word patterns
        int n = (w + 63) / 64;
        std::vector<u64> pat = {0, ~0ull, 1, 1ull << 63};
        if (level > 2) { pat.push_back(0xffffffff00000000ull); pat.push_back(2); }
        if (n > 3) pat.resize(n > 5 ? 2 : 3);
        u64 tot = 1; for (int i = 0; i < n; i++) tot *= pat.size();
        for (u64 k = 0; k < tot; k++) { RV r(w, false); u64 t = k; for (int i = 0; i < n; i++) { r.v[i] = pat[t % pat.size()]; t /= pat.size(); } push(o, seen, r); }
    }
    if (level > 0) for (auto &r : word_pairs(w)) push(o, seen, r);
    if (level > 0) {  // arbitrary fixed patterns (constants, not drawn at random)
        u64 s = 0x9e3779b97f4a7c15ull;
        for (int k = 0; k < (level > 1 ? 12 : 4); k++) { RV r(w, false); for (int i = 0; i < ref::NW; i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; r.v[i] = s; } push(o, seen, r); }
    }
    return o;
}
// four-state values that do contain at least one unknown bit
inline std::vector<RV> corner4x(int w, int level) {
    std::vector<RV> o;
    std::set<RV> seen;
    if (w <= 2 || (w <= 3 && level >= 1) || (w <= 4 && level >= 2)) { for (auto &r : all4(w)) if (!r.known()) o.push_back(r); return o; }
    auto base = corner2(w, 0);
    if (level == 0 && base.size() > 6) base.resize(6);
    else if (level == 1 && base.size() > 14) base.resize(14);
    auto es = edges(w, level > 1 ? 1 : 0);
    if (level > 2) es = edges(w, 2);
    for (int p : es) for (auto &b : base) { RV r = b; r.setbit(p, 2); push(o, seen, r); r.setbit(p, 3); push(o, seen, r); }
    push(o, seen, ref::allx(w));
    push(o, seen, ref::allz(w));
    for (u64 pat : {0x5555555555555555ull, 0xccccccccccccccccull, 0xff00ff00f0f00ff0ull}) for (auto &b : base) {
        RV r = b; for (int i = 0; i < ref::NW; i++) r.x[i] = pat; r.trim(); push(o, seen, r);
        for (int i = 0; i < ref::NW; i++) r.x[i] = ~pat; r.trim(); push(o, seen, r);
    }
    { RV r = ref::allx(w); for (int i = 0; i < w; i += 2) r.setbit(i, 3); push(o, seen, r); }
    bool z = false;
    for (auto &m : word_pairs(w)) {
        RV r(w, false); if (z) r = m;
        z = !z;
        for (int i = 0; i < ref::NW; i++) r.x[i] = m.v[i];
        push(o, seen, r);
    }
    return o;
}
inline std::vector<RV> corner4(int w, int level) { auto o = corner2(w, level); for (auto &r : corner4x(w, level)) o.push_back(r); return o; }
inline std::vector<RV> sg(std::vector<RV> v, bool s) { for (auto &r : v) r.sg = s; return v; }
inline std::vector<RV> vals(bool four, int w, bool s, int level) {
#ifdef MC_SAN
    if (!C.thorough && level > 0) level--;
#endif
    return sg(four ? corner4(w, level) : corner2(w, level), s); }
inline std::string tn(bool four, int w, bool s) { return std::string(four ? "logic" : "bit") + (s ? "s" : "u") + std::to_string(w); }

// ------------------------------------------------------------------ configuration lists
struct P2 { int w1; bool s1; int w2; bool s2; };

void run();  // the property
}  // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char **argv) {
    using namespace mc;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out") C.out = argv[++i];
        else if (a == "--thorough") C.thorough = true;
        else if (a == "--replay") { C.replay = true; C.rgroup = argv[++i]; C.rord = strtoull(argv[++i], nullptr, 10); }
        else if (a == "--upto") { C.replay = true; C.rgroup = argv[++i]; C.upto = strtoull(argv[++i], nullptr, 10); }
        else if (a == "--kf") C.kfon.insert(argv[++i]);
        else if (a == "--hang") g_hang_limit = atoi(argv[++i]);
    }
    if (C.out.empty()) C.out = "/dev/stdout";
    static char stk[1 << 16];
    stack_t ss{};
    ss.ss_sp = stk; ss.ss_size = sizeof stk;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS, SIGTRAP}) sigaction(s, &sa, nullptr);
    sa.sa_handler = on_term;
    sigaction(SIGTERM, &sa, nullptr);
    sa.sa_handler = on_alarm;
    sigaction(SIGALRM, &sa, nullptr);
    itimerval tv{{5, 0}, {5, 0}};
    setitimer(ITIMER_REAL, &tv, nullptr);
    try {
        run();
    } catch (const std::exception &e) {
        C.failed_here = false;
        C.fail(std::string("exception ") + e.what(), true);
    }
    C.write();
    return 0;
}
#endif
