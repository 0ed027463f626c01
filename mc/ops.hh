// The public operations, as tables a check can walk. Every entry encodes its operands, runs the real operator
// and decodes the result, so the loops over the tables are ordinary (not instantiated per type).
#pragma once
#include "pairs.hh"
namespace mc {
inline RV norm(const RV &r) { return r; }
inline RV norm(bool b) { return ref::onebit(b); }
template <class T> requires requires { T::is_4state; } RV norm(const T &t) { RV r = dec(t); return r; }
template <class X> bool raw_same(const X &a, const X &b) { return !memcmp(&a, &b, sizeof(X)); }
using F2 = RV (*)(const RV &, const RV &);
using F1 = RV (*)(const RV &);
struct Op2 { const char *name; F2 f; };
struct Op1 { const char *name; F1 f; };
struct Changed {};  // an operator changed its operand
template <class A, class B, class L> F2 fn2(L) {
    if constexpr (requires(const A &a, const B &b) { L{}(a, b); })
        return [](const RV &x, const RV &y) {
            const A a = enc<A>(x);
            const B b = enc<B>(y);
            RV r = norm(L{}(a, b));
            if (!dec(a).same(x) || !dec(b).same(y)) throw Changed{};
            return r;
        };
    else return nullptr;
}
template <class A, class L> F1 fn1(L) {
    if constexpr (requires(const A &a) { L{}(a); })
        return [](const RV &x) {
            const A a = enc<A>(x);
            RV r = norm(L{}(a));
            if (!dec(a).same(x)) throw Changed{};
            return r;
        };
    else return nullptr;
}
template <class A, class B> std::vector<Op2> ops2() {
    std::vector<Op2> o;
#define MC_OP(nm, expr) o.push_back({nm, fn2<A, B>([](const auto &a, const auto &b) -> decltype(expr) { return expr; })});
    MC_OP("&", a & b) MC_OP("|", a | b) MC_OP("^", a ^ b)
    MC_OP("+", a + b) MC_OP("-", a - b) MC_OP("*", a * b) MC_OP("/", a / b) MC_OP("%", a % b)
    MC_OP("==", a == b) MC_OP("!=", a != b) MC_OP("<", a < b) MC_OP("<=", a <= b) MC_OP(">", a > b) MC_OP(">=", a >= b)
    MC_OP("match", a.match(b)) MC_OP("nmatch", a.nmatch(b))
    MC_OP("<<", a << b) MC_OP(">>", a >> b) MC_OP("ashr", a.ashr(b)) MC_OP("ashl", a.ashl(b))
    MC_OP("concat", a.concat(b)) MC_OP("get", a.get(b))
#undef MC_OP
    return o;
}
template <class A> std::vector<Op1> ops1() {
    std::vector<Op1> o;
#define MC_OP(nm, expr) o.push_back({nm, fn1<A>([](const auto &a) -> decltype(expr) { return expr; })});
    MC_OP("~", ~a) MC_OP("!", !a)
    if constexpr (!requires { A::base_size; }) { MC_OP("unary -", -a) MC_OP("unary +", +a) }  // (not available on packed arrays)
    else { o.push_back({"unary -", nullptr}); o.push_back({"unary +", nullptr}); }
    MC_OP("r_and", a.r_and()) MC_OP("r_or", a.r_or()) MC_OP("r_xor", a.r_xor()) MC_OP("r_nand", a.r_nand()) MC_OP("r_nor", a.r_nor()) MC_OP("r_xnor", a.r_xnor())
    MC_OP("to_signed", a.to_signed()) MC_OP("to_unsigned", a.to_unsigned()) MC_OP("bool", (bool)a)
    MC_OP("extend+3", a.template extend<(std::decay_t<decltype(a)>::size + 3)>()) MC_OP("extend+67", a.template extend<(std::decay_t<decltype(a)>::size + 67)>())
#undef MC_OP
    return o;
}
// evenly thinned alphabet
inline void thin(std::vector<RV> &v, size_t n) { if (v.size() > n) { std::vector<RV> t; for (size_t i = 0; i < n; i++) t.push_back(v[i * v.size() / n]); v = t; } }
}  // namespace mc
