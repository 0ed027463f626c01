// formatting
#include "pairs.hh"
#include "text.hh"
using namespace mc;
template <int W, bool S> void one() {
    using L = VT<true, W, S>;
    using B = VT<false, W, S>;
    for (char f : std::string("bBoOdDhHxXsS")) {
        char lf = (char)tolower(f);
        if (lf == 'd' && W > 128) continue;
        if (!C.begin(std::string(1, f) + " " + (S ? "signed " : "unsigned ") + std::to_string(W))) continue;
        long nat = (long)ref::text(RV(W, false), f, -1).size();
        std::vector<std::pair<std::string, long>> ws{{"", -1}, {"0", 0}, {"1", 1}, {std::to_string(nat), nat}, {std::to_string(nat + 1), nat + 1}, {"0" + std::to_string(nat + 5), nat + 5}, {"00", 0}, {"400", 400}};
        if (nat > 1) ws.push_back({std::to_string(nat - 1), nat - 1});
        bool up = f < 'a' || f == 'h';
        auto vs = lf == 's' ? vals(false, W, S, C.thorough ? 3 : 2) : vals(true, W, S, C.thorough ? 3 : up ? 0 : W > 140 ? 1 : 2);
        if (lf == 'd' && W > 9) {  // neighbourhoods of the powers of ten
            std::string p = "1";
            for (int k = 0; k < 40; k++, p += '0') for (int d = -1; d <= 1; d++) {
                RV a = ref::dec_value(p, W, S);
                RV n = a;
                int c = d;
                for (int i = 0; i < W && c; i++) { int t = n.bit(i) + c; n.setbit(i, t & 1); c = t < 0 ? -1 : t >> 1; }
                vs.push_back(n);
            }
        }
        if (lf == 's') for (int c = 0; c < 256; c++) for (int p = 0; p < (W + 7) / 8; p++) {
            if (W > 24 && !(p < 2 || p > (W + 7) / 8 - 3 || p % 8 == 7 || p % 8 == 0)) continue;
            RV a(W, S); for (int b = 0; b < 8; b++) a.setbit(p * 8 + b, (c >> b) & 1); vs.push_back(a);
        }
        C.states += vs.size();
        size_t k = 0;
        for (auto &v : vs) {
            L l = enc<L>(v);
            // text does not depend on anything but the value: all field widths for small alphabets, rotating ones above
            bool allw = W <= 9 || vs.size() < 200 || C.thorough;
            for (size_t i = 0; i < ws.size(); i++) {
                if (!allw && i > 0 && i != 1 + k % (ws.size() - 1)) continue;
                std::string fmt = ws[i].first + f, e;
                if (C.next(&v, nullptr, nullptr, "four-state")) { e = ref::text(v, f, ws[i].second); C.note2 = fmt; C.eqs(l.str(fmt), e); C.note2.clear(); }
                if (v.known() && C.next(&v, nullptr, nullptr, "two-state")) { B b = enc<B>(v); e = ref::text(v, f, ws[i].second); C.note2 = fmt; C.eqs(b.str(fmt), e); C.note2.clear(); }
            }
            if (f == 'b') {
                if (C.next(&v, nullptr, nullptr, "default format, four-state")) C.eqs(l.str(), v.bin());
                if (v.known() && C.next(&v, nullptr, nullptr, "default format, two-state")) C.eqs(enc<B>(v).str(), v.bin());
            }
            k++;
        }
    }
    // a digit mixing known and unknown bits, at every position of the text
    for (char f : std::string("oh")) {
        if (!C.begin(std::string("mixed digit ") + f + (S ? " signed " : " unsigned ") + std::to_string(W))) continue;
        int n = f == 'o' ? 3 : 4;
        for (int at = 0; at < W; at += n) {
            bool near = at < 8 || at + 8 > W || at % 64 < 8 || at % 64 > 56 || C.thorough;
            if (!near) continue;
            int m = std::min(n, W - at);
            for (int pat = 0; pat < (1 << (2 * m)); pat++) for (int bg = 0; bg < 4; bg++) {
                RV v(W, S);
                for (int i = 0; i < W; i++) v.setbit(i, bg);
                for (int b = 0; b < m; b++) v.setbit(at + b, (pat >> (2 * b)) & 3);
                C.states++;
                if (C.next(&v, nullptr, nullptr, "")) C.eqs(enc<L>(v).str(std::string_view(&f, 1)), ref::text(v, f, -1));
            }
        }
    }
}
struct L_ { template <int W, bool S> void operator()() { one<W, S>(); } };
// every width
struct Tx { int w; bool four, sg; std::string (*f)(const RV &, std::string_view); };
std::vector<Tx> texts;
struct T_ {
    template <int W, bool S> void operator()() {
        texts.push_back({W, true, S, [](const RV &v, std::string_view f) { return enc<VT<true, W, S>>(v).str(f); }});
        texts.push_back({W, false, S, [](const RV &v, std::string_view f) { return enc<VT<false, W, S>>(v).str(f); }});
    }
};
void every() {
    every_width(T_{});
    for (auto &t : texts) {
        if (!C.begin("every width: " + tn(t.four, t.w, t.sg))) continue;
        auto vs = digit_alphabet(t.four, t.w, t.sg);
        if (t.w <= 128) {  // what decides the number of decimal digits
            std::string p = "1";
            const int n = ref::dec_max_digits(t.w);
            for (int k = 1; k <= n; k++, p += '0') if (k == 1 || k + 2 > n) for (int d = 0; d < 2; d++) { RV a = ref::dec_value(p, t.w, t.sg); for (int i = 0; d && i < t.w; i++) { const bool b = a.bit(i); a.setbit(i, !b); if (b) break; } vs.push_back(a); }
        }
        C.states += vs.size();
        for (auto &v : vs) for (char f : std::string("bodhsx")) {
            if (f == 'd' && t.w > 128) continue;
            if (f == 's' && !v.known()) continue;
            const long nat = (long)ref::text(RV(t.w, false), f, -1).size();
            for (auto &[s, n] : {std::pair<std::string, long>{"", -1}, {"0", 0}, {std::to_string(nat + 2), nat + 2}, {std::to_string(nat - 1 > 0 ? nat - 1 : 1), nat - 1 > 0 ? nat - 1 : 1}}) {
                if (!C.next(&v, nullptr, nullptr, "")) continue;
                C.note2 = s + f;
                C.eqs(t.f(v, s + f), ref::text(v, f, n));
                C.note2.clear();
            }
        }
    }
}
void mc::run() { each_width(L_{}); every(); }
