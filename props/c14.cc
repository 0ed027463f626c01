// string literals
#include "pairs.hh"
#include "text.hh"
using namespace mc;
template <bool F, int W, bool S> struct LIT {
    using T = VT<F, W, S>;
    void put(const std::string &s, const RV &e) {
        if (!C.next(&e, nullptr, nullptr, "from the text")) return;
        C.note2 = "\"" + s + "\"";
        // an exactly sized heap copy: the text is not null terminated
        std::vector<char> buf(s.begin(), s.end());
        T t(std::string_view(buf.data(), buf.size()));
        if (C.eq(t, e)) if constexpr (F) { if (s.find('\0') == s.npos) { T u(s.c_str()); C.eq(u, e, "from const char*"); } }
        C.note2.clear();
    }
    void num(const std::string &digits, char base, const std::string &size = "") { put(size + "'" + base + digits, ref::digits_value(digits, base, W, S)); }
    static std::string alphabet(char base) {
        switch (tolower(base)) {
            case 'b': return F ? "01xXzZ_" : "01_";
            case 'o': return F ? "01234567xXzZ_" : "01234567_";
            case 'd': return "0123456789_";
            default: return F ? "0123456789abcdefABCDEFxXzZ_" : "0123456789abcdefABCDEF_";
        }
    }
    static int natural(char base) { return tolower(base) == 'd' ? ref::dec_max_digits(W) : (W + ref::lg(base) - 1) / ref::lg(base); }
    // every digit string up to a length
    void strings(char base, int len) {
        auto al = alphabet(base);
        std::vector<int> ix(len, 0);
        for (int n = 1; n <= len; n++) {
            u64 tot = 1;
            for (int i = 0; i < n; i++) tot *= al.size();
            for (u64 k = 0; k < tot; k++) {
                std::string d;
                u64 t = k;
                for (int i = 0; i < n; i++) { d += al[t % al.size()]; t /= al.size(); }
                num(d, base);
            }
            C.states += tot;
        }
    }
    void run() {
        if (!C.begin(tn(F, W, S))) return;
        bool deep = C.thorough;
        for (char base : {'b', 'o', 'd', 'h', 'B', 'O', 'D', 'H'}) {
            bool up = base < 'a';
            int len;
            switch (tolower(base)) {
                case 'b': len = W <= 9 ? 4 : W <= 64 ? 3 : 2; break;
                case 'o': len = W <= 9 ? 3 : 2; break;
                case 'd': len = W <= 9 ? 4 : W <= 64 ? 3 : 2; break;
                default: len = W <= 9 || deep ? 3 : 2;
            }
            if (W == 1 && tolower(base) == 'h') len = 2;
            if (deep && tolower(base) != 'h') len++;
            strings(base, up ? 1 : len);
            // leading sizes
            std::vector<std::string> sizes{std::to_string(W), "1000", "0" + std::to_string(W)};
            auto al = alphabet(base);
            for (auto &sz : sizes) for (char c : al) { num(std::string(1, c), base, sz); }
            // each digit at each position of a word of natural length, one more, and three more digits, in several backgrounds
            int N = natural(base);
            std::vector<char> bg{'0', '1', tolower(base) == 'b' ? '1' : '7'};
            if (tolower(base) == 'h') bg.push_back('f');
            if (F && tolower(base) != 'd') { bg.push_back('x'); bg.push_back('Z'); }
            for (int n : {N - 1, N, N + 1, N + 3, N + 30}) {
                if (n < 1) continue;
                for (char b : bg) {
                    num(std::string(n, b), base);
                    for (int p = 0; p < n; p++) {
                        int q = n - 1 - p;  // digits above it
                        bool at_word = tolower(base) == 'd' || (p * ref::lg(base) % 64) < 4 || (p * ref::lg(base) % 64) > 59 || q < 5 || p < 3;
                        for (char c : al) {
                            if (c == b) continue;
                            if (n > 12 && !deep && (up || !at_word) && !(c == al[1] || c == 'x' || c == 'z')) continue;
                            std::string d(n, b);
                            d[q] = c;
                            num(d, base);
                        }
                    }
                }
                C.states++;
                // every digit in turn, two rotations; underscores: after every k digits, leading, trailing, runs
                std::string cyc;
                for (int i = 0; (int)cyc.size() < n; i++) if (al[i % al.size()] != '_') cyc += al[i % al.size()];
                for (int r = 0; r < 4; r++) {
                    std::rotate(cyc.begin(), cyc.begin() + std::min<int>(cyc.size() - 1, r), cyc.end());
                    num(cyc, base);
                    for (int k : {1, 2, 3, 4, 5, 8, 16, 21}) {
                        std::string d;
                        for (int i = 0; i < n; i++) { d += cyc[i]; if ((i + 1) % k == 0) d += '_'; }
                        num(d, base);
                        num("_" + d + "__", base);
                    }
                    for (int p = 0; p <= n; p++) if (p < 6 || p > n - 6 || p % 7 == 0 || deep) { num(cyc.substr(0, p) + "_" + cyc.substr(p), base); num(cyc.substr(0, p) + "____" + cyc.substr(p), base); }
                }
            }
            num("", base);
            // written values: every pattern of the width (and one bit more) in this base
            for (int ex : {0, 1, 2}) {
                for (auto &a : corner2(W + ex, W > 100 ? 0 : 1)) {
                    std::string d = tolower(base) == 'd' ? ref::dec_text(a) : ref::text(a, base, -1);
                    put("'" + std::string(1, base) + d, ref::resize(a, W, false, S));
                    C.states++;
                }
            }
        }
        // raw strings
        auto raw = [&](const std::string &s) { put(s, ref::raw_value(s, W, S)); };
        for (int c = 0; c < 256; c++) raw(std::string(1, (char)c));
        int N = (W + 7) / 8;
        for (int n : {0, 1, 2, N - 1, N, N + 1, N + 2, N + 9}) {
            if (n < 0) continue;
            raw(std::string(n, 'a')); raw(std::string(n, '_')); raw(std::string(n, '\xff')); raw(std::string(n, '1')); raw(std::string(n, 'x'));
            for (int p = 0; p < n; p++) for (char c : {'A', '\x80', '\x01', '_', '0', 'z', ' ', 'Z', '\x7f'}) {
                for (char b : {'a', '\xff', '0'}) { std::string s(n, b); s[p] = c; raw(s); }
            }
            std::string s;
            for (int i = 0; i < n; i++) s += (char)('!' + (i * 7) % 90);
            if (s.find('\'') == s.npos) raw(s);
            C.states++;
        }
        // quotes that are not part of a base prefix
        for (auto s : {"don't", "it's", "a'b1", " 'h12", "x'd1", "'", "12'", "''", "abc'", "'q1", "8'w", "''b1", "b'1"}) raw(s);
    }
};
struct L { template <int W, bool S> void operator()() { LIT<true, W, S>{}.run(); LIT<false, W, S>{}.run(); } };
// every width
struct Tx { int w; bool four, sg; RV (*g)(std::string_view); };
std::vector<Tx> texts;
struct T_ {
    template <int W, bool S> void operator()() {
        texts.push_back({W, true, S, [](std::string_view s) { return dec(VT<true, W, S>(s)); }});
        texts.push_back({W, false, S, [](std::string_view s) { return dec(VT<false, W, S>(s)); }});
    }
};
void every() {
    every_width(T_{});
    for (auto &t : texts) {
        if (!C.begin("every width: " + tn(t.four, t.w, t.sg))) continue;
        C.states++;
        auto put = [&](const std::string &s, const RV &e) {
            if (!C.next(&e, nullptr, nullptr, "from the text")) return;
            C.note2 = "\"" + s + "\"";
            RV r = t.g(s);
            if (!r.same(e)) C.fail("gives " + r.bin());
            C.note2.clear();
        };
        for (char base : std::string("bodh")) {
            const std::string al = base == 'd' ? "0123456789" : std::string(base == 'b' ? "01" : base == 'o' ? "01234567" : "0123456789abcdefABCDEF") + (t.four ? "xzXZ" : "");
            const int n = base == 'd' ? ref::dec_max_digits(t.w) : (t.w + ref::lg(base) - 1) / ref::lg(base);
            auto num = [&](const std::string &d) { put("'" + std::string(1, base) + d, ref::digits_value(d, base, t.w, t.sg)); };
            for (int m : {n - 1, n, n + 1, n + 2}) {
                if (m < 1) continue;
                for (char c : al) {
                    num(std::string(m, c));
                    std::string d(m, al[1]);
                    d[0] = c; num(d);
                    if (m > 1) { d[1] = c; num(d); }
                    d.assign(m, al[1]); d[m - 1] = c; num(d);
                    if (m > 4) { d.insert(m / 2, "_"); num(d); }
                }
                for (int r = 0; r < 3; r++) { std::string d; for (int i = 0; i < m; i++) { d += al[(i * (r + 1) + r) % al.size()]; if (r == 2 && i % 4 == 3) d += '_'; } num(d); }
            }
            if (base == 'd') for (auto &a : corner2(t.w + 1, 0)) num(ref::dec_text(a));
        }
        for (int m : {1, (t.w + 7) / 8 - 1, (t.w + 7) / 8, (t.w + 7) / 8 + 1}) {
            if (m < 1) continue;
            std::string s;
            for (int i = 0; i < m; i++) s += (char)(i % 3 == 2 ? 0x80 + i % 100 : 'A' + i % 50);
            put(s, ref::raw_value(s, t.w, t.sg));
        }
    }
}
void mc::run() { each_width(L{}); every(); }
