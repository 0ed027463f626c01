// Reference meaning of literals and formats, bit by bit and digit by digit. Nothing in here uses /repo.
#pragma once
#include <algorithm>
#include "ref.hh"
namespace ref {
// decimal digits (most significant first) -> v mod 2^w, by long division of the digit string by two
inline RV dec_value(std::string d, int w, bool sg) {
    RV r(w, sg);
    std::string n;
    for (char c : d) if (c != '_') n += c;
    for (int b = 0; b < w; b++) {
        int rem = 0;
        bool any = false;
        for (char &c : n) { int k = rem * 10 + (c - '0'); c = (char)('0' + k / 2); rem = k & 1; any |= c != '0'; }
        r.setbit(b, rem);
        if (!any && b > 0) { if (rem) continue; break; }
    }
    return r;
}
inline int lg(char base) { base = (char)tolower(base); return base == 'b' ? 1 : base == 'o' ? 3 : 4; }
inline RV digits_value(const std::string &d, char base, int w, bool sg) {
    if (tolower(base) == 'd') return dec_value(d, w, sg);
    RV r(w, sg);
    int n = lg(base), at = 0;
    for (int i = (int)d.size() - 1; i >= 0; i--) {
        char c = (char)tolower(d[i]);
        if (c == '_') continue;
        int k = c == 'x' || c == 'z' ? -1 : c <= '9' ? c - '0' : c - 'a' + 10;
        for (int b = 0; b < n; b++) r.setbit(at + b, k < 0 ? (c == 'x' ? 2 : 3) : (k >> b) & 1);
        at += n;
    }
    return r;
}
inline RV raw_value(const std::string &s, int w, bool sg) {
    RV r(w, sg);
    int at = 0;
    for (int i = (int)s.size() - 1; i >= 0; i--, at += 8)
        for (int b = 0; b < 8; b++) r.setbit(at + b, ((unsigned char)s[i] >> b) & 1);
    return r;
}
// exact decimal of the bits (unsigned), by long division
inline std::string dec_text(const RV &a) {
    std::vector<int> b;
    for (int i = a.w - 1; i >= 0; i--) b.push_back(a.bit(i));
    std::string o;
    while (true) {
        int rem = 0;
        bool any = false;
        for (int &x : b) { int k = rem * 2 + x; x = k >= 10; rem = k - 10 * x; any |= x; }
        o += (char)('0' + rem);
        if (!any) break;
    }
    std::reverse(o.begin(), o.end());
    return o;
}
inline int dec_max_digits(int w) { RV r(w, false); for (int i = 0; i < w; i++) r.setbit(i, 1); return (int)dec_text(r).size(); }
// one digit of n bits at position at (bits beyond the top are not there)
inline char digit_text(const RV &a, int at, int n) {
    int x = 0, z = 0, k = 0, m = 0;
    for (int b = 0; b < n && at + b < a.w; b++, m++) { int t = a.bit(at + b); if (t == 2) x++; else if (t == 3) z++; else if (b < 8) k |= t << b; }
    if (!x && !z) return "0123456789abcdef"[k];
    if (x == m) return 'x';
    if (z == m) return 'z';
    return x ? 'X' : 'Z';
}
// req < 0: no width in the format
inline std::string text(const RV &a, char fmt, long req) {
    char f = (char)tolower(fmt);
    std::string s, sign;
    size_t natural;
    char padc = '0';
    if (f == 'd') {
        padc = ' ';
        natural = dec_max_digits(a.w);
        bool k = a.known();
        if (!k) s = std::string(1, digit_text(a, 0, a.w));
        else if (a.sg && a.bit(a.w - 1)) {
            RV n(a.w, false);
            int c = 1;  // two's complement magnitude
            for (int i = 0; i < a.w; i++) { int t = !a.bit(i) + c; n.setbit(i, t & 1); c = t >> 1; }
            s = dec_text(n);
            sign = "-";
        } else s = dec_text(a);
    } else if (f == 's') {
        padc = ' ';
        natural = (a.w + 7) / 8;
        for (int i = (int)natural - 1; i >= 0; i--) { int c = 0; for (int b = 0; b < 8; b++) if (i * 8 + b < a.w) c |= a.bit(i * 8 + b) << b; s += (char)c; }
    } else {
        int n = f == 'b' ? 1 : f == 'o' ? 3 : 4;
        natural = (a.w + n - 1) / n;
        for (int i = (int)natural - 1; i >= 0; i--) s += digit_text(a, i * n, n);
    }
    if (req != 0) while (s.size() < std::max<size_t>(natural, req > 0 ? req : 0)) s = padc + s;
    // the sign is printed in front of the digits
    if (sign.empty()) return s;
    size_t p = s.find_first_not_of(' ');
    return s.substr(0, p) + sign + s.substr(p);
}
}  // namespace ref
