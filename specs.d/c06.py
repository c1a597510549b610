_N = 16
def _sw(n, step=1, first=0):
    return [(e, min(_N, n - e)) for e in range(first, n, _N)]
_f = lambda mode, lc, sg=0: [(e, c, 1, mode, lc, sg) for e, c in _sw(255)]
_d = lambda mode, lc, sg=0: [(e, c, 1, mode, lc, sg) for e, c in _sw(2047)]
_fh = lambda lc, sg: [(e, c, 1, lc, sg) for e, c in _sw(255, first=1)]
_dh = lambda lc, sg, nw: [(e, c, 1, lc, sg, nw) for e, c in _sw(2047, first=1)]
_G = ('-DOTHER_COMPILER',)   # the code other compilers see
_I = dict(icp=200, time=400)
spec("C06", [
    J("h_ryu", "f_special"), J("h_ryu", "d_special"),
    J("h_ryu", "f_sweep", _f(0, 8) + _f(1, 8) + _f(2, 8, 1) + _f(3, 8) + _f(4, 8), **_I),
    J("h_ryu", "f_hard", _fh(4, 0), **_I),
    J("h_ryu", "d_sweep", _d(-1, 7, 0), **_I),
    J("h_ryu", "d_hard", _dh(3, 1, 2), **_I),
    J("h_ryu", "d_text", [(L, e, 9, (L + e) & 1) for L in range(1, 16) for e in (0, 2, 7, 13, 19)] + [(16, 0, 9, 0)], **_I),
    J("h_ryu", "f_text", [(L, e, 9, (L + e) & 1) for L in range(1, 7) for e in (0, 1, 4, 9)] + [(7, 0, 9, 1), (8, 0, 9, 0)], **_I),
    J("h_ryu", "d_text", [(L, e, 13, e & 1) for L in range(1, 16) for e in range(20)] + [(16, 0, 13, 1)], tier="thorough", **_I),
    J("h_ryu", "f_text", [(L, e, 13, e & 1) for L in range(1, 7) for e in range(11)] + [(7, 0, 13, 0), (8, 0, 13, 1)], tier="thorough", **_I),
    J("h_ryu", "f_sweep", _f(0, 5) + _f(3, 5, 1), opts=_G, **_I), J("h_ryu", "d_sweep", [(e, min(6, (2049 - e) // 3), 3, -1, 4, 1) for e in range(0, 2045, 18)], opts=_G, **_I),
    J("h_ryu", "f_sweep", _f(0, 12, 1) + _f(1, 12) + _f(2, 13) + _f(3, 12) + _f(4, 12), tier="thorough", **_I),
    J("h_ryu", "d_sweep", _d(0, 9) + _d(1, 9) + _d(2, 9) + _d(3, 9, 1) + _d(4, 9), tier="thorough", **_I),
    J("h_ryu", "d_hard", _dh(7, 0, 4), tier="thorough", **_I),
], bounds="float: for each of the 255 finite exponents, five windows of 256 mantissas (the lowest, the highest, evenly spread, around a round decimal, multiples of a power of five) and four of 16 around the mantissas hardest to scale; double: for each of the 2047 finite exponents, one of those five kinds of window with 128 mantissas and two of 8 around the hardest mantissas; whole numbers of every length from 1 to 16 digits (float: 8), and those up to 15 (6) digits divided by powers of ten up to 10^19 (10^9), in windows of 512 at the first, the last and the roundest of each length, around powers of two and evenly spread; every zero, infinity and NaN. Smaller windows (32, and 16 on every third double exponent) with the branches that other compilers than clang take. Every number of a window is covered, not a sample. Thorough: windows of 4096 and 512, and 8192 for the whole numbers",
   outside="the mantissas between the windows; the whole 2^32 / 2^64 is out of a solver's reach (table-driven 128-bit multiplications), the windows are exhaustive inside and placed on every exponent",
   technique="symbolic execution of the formatting code from LLVM IR; interval branch-and-prune over the mantissa decides each query")
