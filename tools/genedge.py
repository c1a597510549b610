#!/usr/bin/env python3
"""writes harness/parse_edge.h: the 9- and 17-digit decimals nearest to every power of two of float and double"""
from fractions import Fraction as F
import os
def de(k, n):
    v = F(2) ** k
    e = 0
    while v * F(10) ** -e >= 10 ** n: e += 1
    while v * F(10) ** -e < 10 ** (n - 1): e -= 1
    return round(v * F(10) ** -e), e
o = "// generated by tools/genedge.py\n"
for nm, a, b, n in (("F", -151, 129, 9), ("D", -1076, 1025, 17)):
    o += "enum { %sE_FIRST = %d };\nstatic const struct { unsigned long long d; int e; } %sP_EDGE[%d] = {\n%s};\n" % (
        nm, a, nm, b - a + 1, ",\n".join("{%du,%d}" % de(k, n) if n == 9 else "{%dull,%d}" % de(k, n) for k in range(a, b + 1)))
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/harness/parse_edge.h", "w").write(o)
