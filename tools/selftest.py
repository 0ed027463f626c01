#!/usr/bin/env python3
"""Validates the reference model mc/ref.hh against an independent implementation on Python integers/strings."""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(H, "build"); os.makedirs(B, exist_ok=True)
exe = os.path.join(B, "selftest")
subprocess.run(["g++", "-std=c++20", "-O1", "-include", "cstdint", "-I" + H + "/mc", H + "/mc/selftest.cc", "-o", exe], check=True)
def ext(s, w, sg): return s[-w:] if len(s) >= w else (s[0] if sg else "0") * (w - len(s)) + s
def num(s, sg): v = int(s, 2); return v - (1 << len(s)) if sg and s[0] == "1" else v
def enc(v, w): return format(v % (1 << w), "0%db" % w)
AND = lambda a, b: "0" if "0" in (a, b) else "1" if a == b == "1" else "x"
OR = lambda a, b: "1" if "1" in (a, b) else "0" if a == b == "0" else "x"
XOR = lambda a, b: "01"[a != b] if a in "01" and b in "01" else "x"
known = lambda s: not set(s) & set("xz")
def parse(d):
    n, r = d.split("'"); sg = r[0] == "s"; return r[2:] if sg else r[1:], sg
def model(op, a, b):
    (A, sa), (Bv, sb) = a, b
    w = max(len(A), len(Bv)); sg = sa and sb; x, y = ext(A, w, sg), ext(Bv, w, sg)
    if op in "&|^" and len(op) == 1: return "".join(map({"&": AND, "|": OR, "^": XOR}[op], x, y)), sg
    if op in ("+", "-", "*", "/", "%"):
        if not (known(A) and known(Bv)): return "x" * w, sg
        m, n = num(x, sg), num(y, sg)
        if op in "/%":
            if n == 0: return "x" * w, sg
            q = abs(m) // abs(n) * (1 if (m < 0) == (n < 0) else -1)
            return enc(q if op == "/" else m - q * n, w), sg
        return enc({"+": m + n, "-": m - n, "*": m * n}[op], w), sg
    if op == "cmp": m, n = num(x, sg), num(y, sg); return enc((m > n) - (m < n) + 1, 2), False
    if op == "match": return "01"[x == y], False
    if op in ("<<", ">>", ">>>"):
        if not (known(A) and known(Bv)): return "x" * len(A), sa
        n, k = int(Bv, 2), len(A)
        v = num(A, sa and op == ">>>")
        return enc(0 if op == "<<" and n >= k else v << n if op == "<<" else v >> min(n, 4 * k), k), sa
    if op == "cat": return A + Bv, False
    if op == "neg": return (enc(-int(A, 2), len(A)) if known(A) else "x" * len(A)), sa
    if op == "not": return "".join({"0": "1", "1": "0"}.get(c, "x") for c in A), False
    if op in ("rand", "ror", "rxor"):
        r = A[0] if A[0] in "01" else ({"rand": AND, "ror": OR, "rxor": XOR}[op](A[0], "1" if op == "rand" else "0"))
        for c in A[1:]: r = {"rand": AND, "ror": OR, "rxor": XOR}[op](r, c)
        return r, False
    if op == "conv": return ext(A, len(Bv), sa), False
def digit(c): return c[0] if len(set(c)) == 1 and c[0] in "xz" else ("X" if "x" in c else "Z") if set(c) & set("xz") else "%x" % int(c, 2)
def text(v, sg, f, w):
    pad, sign = "0", ""
    if f == "d":
        pad, nat = " ", len(str((1 << len(v)) - 1))
        k = num(v, sg) if known(v) else 0
        t, sign = (str(abs(k)), "-" if k < 0 else "") if known(v) else (digit(v), "")
    elif f == "s":
        pad, nat = " ", (len(v) + 7) // 8
        t = int(v, 2).to_bytes(nat, "big").decode("latin1")
    else:
        n = {"b": 1, "o": 3, "h": 4}[f]
        nat = -(-len(v) // n)
        e = [v[max(0, i - n):i] for i in range(len(v), 0, -n)][::-1]
        t = "".join(map(digit, e))
    if w: t = t.rjust(max(nat, w), pad)
    k = len(t) - len(t.lstrip(" ")) if sign else 0
    return t[:k] + sign + t[k:]
def lit(b, d, w):
    d = d.replace("_", "").lower()
    if b == "d": return format(int(d or "0") % (1 << w), "0%db" % w)
    n = {"b": 1, "o": 3, "h": 4}[b]
    return "".join(c * n if c in "xz" else format(int(c, 16), "0%db" % n) for c in d).rjust(w, "0")[-w:]
n = 0
for line in subprocess.run([exe], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
    op, a, b, r = line.split()
    n += 1
    if op == "text":
        f, w = b.split(":")
        m = text(*parse(a), f, int(w) if int(w) >= 0 else 1)  # no width: at least the natural one
        if bytes.fromhex(r[1:]).decode("latin1") != m: print("text mismatch:", line, m); sys.exit(1)
        continue
    if op == "lit":
        if lit(a[0], a[1:], int(b)) != parse(r)[0]: print("literal mismatch:", line); sys.exit(1)
        continue
    if model(op, parse(a), parse(b)) != parse(r):
        print("reference model mismatch:", line, model(op, parse(a), parse(b))); sys.exit(1)
print("reference model agrees with Python on", n, "results")
