#!/usr/bin/env python3
"""Writes harness/ryu_hard.h: for every exponent, mantissas whose scaled value lies as near as possible to an integer.
Only chooses where the solver's windows are placed; no verdict depends on it."""
import os, sys
sys.setrecursionlimit(100000)
def first(a, M, L, R):
    """least x >= 0 with L <= a*x mod M <= R, or None"""
    if L == 0: return 0
    a %= M
    if 2 * a > M: a, L, R = M - a, M - R, M - L
    if L == 0: return 0
    if a == 0: return None
    c = -(-L // a)
    if a * c <= R: return c
    y = first(a - M % a if M % a else 0, a, L % a, R % a) if L % a <= R % a else 0
    if y is None: return None
    return -(-(L + M * y) // a)
def least(a, b, M, lo, hi, low):
    """x in [lo,hi] with (a*x+b) mod M close above 0 (low) or close below M"""
    best = None
    n = hi - lo
    k = 4
    while k < 70:
        w = M >> k
        if w == 0: break
        s = (a * lo + b) % M
        L, R = ((1 - s), (w - s)) if low else ((M - w - s), (M - 1 - s))
        L %= M; R %= M
        x = None
        if L <= R: x = first(a, M, L, R)
        else: x = 0 if True else None      # the window wraps: lo itself
        if x is None or x > n: break
        best = lo + x
        k += 1
    return best if best is not None else lo
def log10pow2(e): return (e * 78913) >> 18
def log10pow5(e): return (e * 732923) >> 20
def gen(mb, bias, nexp):
    out = []
    for ex in range(1, nexp):
        e2 = ex - bias - mb - 2
        if e2 >= 0:
            q = log10pow2(e2) - (1 if e2 > 3 else 0); E = q
        else:
            q = log10pow5(-e2) - (1 if -e2 > 1 else 0); E = q + e2
        P, Q = (1, 1)
        if e2 >= 0: P <<= e2
        else: Q <<= -e2
        if E >= 0: Q *= 10 ** E
        else: P *= 10 ** -E
        import math
        g = math.gcd(P, Q); P //= g; Q //= g
        lo, hi = 1 << mb, (1 << (mb + 1)) - 1
        row = []
        for c in (0, 2):
            for low in (True, False):
                m = least(4 * P % Q, c * P % Q, Q, lo, hi, low) if Q > 1 else lo
                row.append(m - lo)
        out.append(row)
    return out
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    f, d = gen(23, 127, 255), gen(52, 1023, 2047)
    with open(os.path.join(here, "harness", "ryu_hard.h"), "w") as o:
        o.write("// generated by tools/genhard.py\n")
        o.write("static const unsigned F_HARD[%d][4] = {{0}," % (len(f) + 1) + ",\n".join("{" + ",".join(map(str, r)) + "}" for r in f) + "};\n")
        o.write("static const unsigned long long D_HARD[%d][4] = {{0}," % (len(d) + 1) + ",\n".join("{" + ",".join(str(x) + "u" for x in r) + "}" for r in d) + "};\n")
