// print and read back
#include "pairs.hh"
#include "text.hh"
using namespace mc;
inline bool pure(const RV &v, int n) {
    for (int at = 0; at < v.w; at += n) { char c = ref::digit_text(v, at, n); if (c == 'X' || c == 'Z') return false; }
    return true;
}
template <bool F, int W, bool S> void one() {
    using T = VT<F, W, S>;
    if (!C.begin(tn(F, W, S))) return;
    auto vs = vals(F, W, S, C.thorough ? 3 : 2);
    // a digit of the text at every position, of every kind, against every background
    if (F) for (int n : {1, 3, 4}) for (int at = 0; at < W; at += n) for (int t = 0; t < 4; t++) for (int bg = 0; bg < 4; bg++) {
        if (t == bg) continue;
        RV v(W, S);
        for (int i = 0; i < W; i++) v.setbit(i, bg);
        for (int b = 0; b < n; b++) v.setbit(at + b, t);
        vs.push_back(v);
    }
    C.states += vs.size();
    for (auto &v : vs) {
        T t = enc<T>(v);
        for (char f : std::string("bohxd")) {
            if (f != 'b' && f != 'd' && !pure(v, f == 'o' ? 3 : 4)) continue;
            if (f == 'd' && (S || W > 128 || !v.known())) continue;
            for (auto w : {"", "0", "7"}) {
                if (f != 'd' && *w) continue;
                if (!C.next(&v, nullptr, nullptr, "")) continue;
                std::string fmt = std::string(w) + f;
                C.note2 = fmt;
                std::string s = t.str(fmt);
                std::string d = s;
                d.erase(0, std::min(d.find_first_not_of(' '), d.size()));
                std::string lit = std::string("'") + (f == 'x' ? 'h' : f) + d;
                T u{std::string_view(lit)};
                bool same;
                if constexpr (F) same = t.match(u) && u.match(t); else same = (bool)(t == u);
                if (!same) C.fail("\"" + s + "\" reads back as a different vector");
                else if (C.eq(u, v, "read back")) {
                    if (u.str(fmt) != s) C.fail("\"" + s + "\" prints as \"" + u.str(fmt) + "\" once read back");
                    // with the width written in front
                    T u2{std::string_view(std::to_string(W) + lit)};
                    C.eq(u2, v, "read back with a size");
                }
                C.note2.clear();
            }
        }
        if (v.known() && W % 8 == 0) {  // characters (raw strings without a quote)
            if (C.next(&v, nullptr, nullptr, "s")) {
                std::string s = t.str("s");
                if (s.find('\'') == s.npos) { T u{std::string_view(s)}; C.eq(u, v, "read back as characters"); }
            }
        }
    }
}
struct L_ { template <int W, bool S> void operator()() { one<true, W, S>(); one<false, W, S>(); } };
// every width
struct Tx { int w; bool four, sg; std::string (*f)(const RV &, std::string_view); RV (*g)(std::string_view); };
std::vector<Tx> texts;
struct T_ {
    template <bool F, int W, bool S> void put() {
        using T = VT<F, W, S>;
        texts.push_back({W, F, S, [](const RV &v, std::string_view f) { return enc<T>(v).str(f); }, [](std::string_view s) { return dec(T(s)); }});
    }
    template <int W, bool S> void operator()() { put<true, W, S>(); put<false, W, S>(); }
};
void every() {
    every_width(T_{});
    for (auto &t : texts) {
        if (!C.begin("every width: " + tn(t.four, t.w, t.sg))) continue;
        auto vs = digit_alphabet(t.four, t.w, t.sg);
        C.states += vs.size();
        for (auto &v : vs) for (char f : std::string("bohd")) {
            if (f != 'b' && f != 'd' && !pure(v, f == 'o' ? 3 : 4)) continue;
            if (f == 'd' && (t.sg || t.w > 128 || !v.known())) continue;
            if (!C.next(&v, nullptr, nullptr, "")) continue;
            C.note2 = f;
            std::string d = t.f(v, std::string_view(&f, 1));
            d.erase(0, std::min(d.find_first_not_of(' '), d.size()));
            RV u = t.g(std::string("'") + f + d), u2 = t.g(std::to_string(t.w) + "'" + f + d);
            if (!u.same(v)) C.fail("\"" + d + "\" reads back as " + u.bin());
            else if (!u2.same(v)) C.fail("\"" + d + "\" with a size in front reads back as " + u2.bin());
            C.note2.clear();
        }
    }
}
void mc::run() { each_width(L_{}); every(); }
