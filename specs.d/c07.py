def _ch(a, b, n):
    return [(e, min(n, b - e)) for e in range(a, b, n)]
_I7 = dict(icp=200, time=400)
_fs = lambda mode, lc, n: [(e, c, mode, lc, n) for e, c in _ch(-60, 42, 17)]
_ds = lambda mode, lc, n: [(e, c, mode, lc, n) for e, c in _ch(-350, 320, 67)]
spec("C07", [
    J("h_parse", "f_garbage", [1, 2, 3, 4, 5, 6]), J("h_parse", "d_garbage", [1, 2, 3, 4, 5, 6]),
    J("h_parse", "f_shapes", [1, 2, 3, 4, 5], **_I7), J("h_parse", "d_shapes", [1, 2, 3, 4, 5], **_I7),
    J("h_parse", "toolong", [(10, 0), (18, 0), (1, 5), (3, 6)]),
    J("h_parse", "f_sweep", _fs(0, 8, 9) + _fs(1, 10, 9) + _fs(2, 10, 9) + _fs(3, 10, 9) + _fs(-1, 6, 3) + _fs(-1, 9, 6) + _fs(2, 9, 8), **_I7),
    J("h_parse", "d_sweep", _ds(0, 7, 17) + _ds(1, 9, 17) + _ds(2, 9, 17) + _ds(3, 9, 17) + _ds(-1, 6, 4) + _ds(-1, 8, 11) + _ds(2, 8, 16), **_I7),
    J("h_parse", "f_hard", [(e, c, 8) for e, c in _ch(-56, 32, 22)], **_I7),
    J("h_parse", "d_hard", [(e, c, 6) for e, c in _ch(-342, 294, 53)], **_I7),
    J("h_parse", "f_round", [(e, (e * 77777) & 0x7fffff, 7, 3, e & 1) for e in range(1, 255, 12)], **_I7),
    J("h_parse", "d_round", [(e, (e * 7777777777777) & 0xfffffffffffff, 6, 13, e & 1) for e in range(1, 2047, 60)], **_I7),
    J("h_parse", "f_edge", [(b, c, 1, 10) for b, c in _ch(-151, 130, 36)], **_I7),
    J("h_parse", "d_edge", [(b, c, 1, 7) for b, c in _ch(-1076, 1026, 132)], **_I7),
    J("h_parse", "f_edge", [(b, c, 1, 15) for b, c in _ch(-151, 130, 12)], tier="thorough", **_I7),
    J("h_parse", "d_edge", [(b, c, 1, 12) for b, c in _ch(-1076, 1026, 33)], tier="thorough", **_I7),
    J("h_parse", "f_garbage", [7, 8], tier="thorough"), J("h_parse", "d_garbage", [7, 8], tier="thorough"),
    J("h_parse", "f_shapes", [6], tier="thorough", **_I7), J("h_parse", "d_shapes", [6], tier="thorough", **_I7),
    J("h_parse", "f_sweep", sum([_fs(m, 14, n) for m in (1, 2, 3) for n in (9, 8)], []), tier="thorough", **_I7),
    J("h_parse", "d_sweep", sum([_ds(m, 12, n) for m in (1, 2, 3) for n in (17, 16, 15)], []), tier="thorough", **_I7),
    J("h_parse", "f_hard", [(e, c, 12) for e, c in _ch(-56, 32, 11)], tier="thorough", **_I7),
    J("h_parse", "d_hard", [(e, c, 10) for e, c in _ch(-342, 294, 26)], tier="thorough", **_I7),
], bounds="every byte string of up to 6 characters outside the grammar; every text of up to 5 characters inside it (two arbitrary mantissa digits, exponent digits 0, 2, 3, 9); for every decimal exponent from -60 to 41 (float) and -350 to 319 (double), windows of 64..1024 consecutive or evenly spread digit sequences of 3 to 9 (float) and 4 to 17 (double) digits, written with the point at varying places, and 256 (64) around the sequences nearest to the middle between two numbers, and 1024 (128) around every power of two, down to half the smallest number and up to twice the largest; every number of a window, not a sample. Thorough: windows of 16384 (4096)",
   outside="digit sequences between the windows; the idx argument (ignored by the code); texts beyond the digit limits are only required to give NaN",
   technique="symbolic execution of the parser from LLVM IR; z3 (grammar) and interval branch-and-prune (values) decide each query")
