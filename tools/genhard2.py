#!/usr/bin/env python3
"""Writes harness/parse_hard.h: for every decimal exponent E, full-length decimals D such that D * 10^E lies as near as
possible to the middle between two numbers, or to a number. Only places the solver's windows."""
import os, sys, math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from genhard import least
def gen(n, mb, emin, E):
    # D in [lo,hi] within one binade: D*10^E = m * 2^q with m in [2^mb, 2^(mb+1))
    num, den = (10 ** E, 1) if E >= 0 else (1, 10 ** -E)
    lo10, hi10 = 10 ** (n - 1), 10 ** n - 1
    b = (hi10 * num // den).bit_length() - 1 if hi10 * num >= den else -((den // (hi10 * num)).bit_length())
    q = max(b - mb - 1, emin)
    # m = D * 10^E / 2^q
    P, Q = (num, den << q) if q >= 0 else (num << -q, den)
    lo = max(lo10, -(-(Q << mb) // P)) if q > emin else lo10
    hi = min(hi10, (Q << (mb + 1)) // P)
    if hi <= lo: lo, hi = lo10, hi10
    P *= 2; Q *= 2      # work modulo 1 with halves exact
    g = math.gcd(P, Q); P //= g; Q //= g
    row = []
    for c in (1, 0):
        for low in (True, False):
            if c:   # D*P/Q + 1/2
                row.append(least(2 * P % (2 * Q), Q % (2 * Q), 2 * Q, lo, hi, low))
            else:
                row.append(least(P % Q, 0, Q, lo, hi, low) if Q > 1 else lo)
    return row
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "harness", "parse_hard.h"), "w") as o:
    o.write("// generated by tools/genhard2.py\n")
    for nm, n, mb, emin, a, b in (("FP", 9, 23, -149, -56, 32), ("DP", 17, 52, -1074, -342, 294)):
        rows = [gen(n, mb, emin, E) for E in range(a, b)]
        o.write("enum { %s_FIRST = %d };\nstatic const unsigned long long %s_HARD[%d][4] = {" % (nm, a, nm, len(rows)) + ",\n".join("{" + ",".join("%du" % x for x in r) + "}" for r in rows) + "};\n")
