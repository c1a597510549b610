import struct as _struct
def _b(x):
    return _struct.unpack("<I", _struct.pack("<f", x))[0]
_MIN, _MAX = 0x00800000, 0x7f800000
_A = dict(icp=300, time=500)
def _pw(y):
    k = 126 / abs(y)
    return (_b(2.0 ** max(-126.0, -k)), _b(2.0 ** min(127.99, k)), _b(y))
_PW = [_pw(y) for y in (0.5, -0.5, 3, -1, -2, 1 / 3, -1 / 3, 10, -40, 1.5, 0.1, 7, 2.5, 4, 100)]
_PW2 = [_pw(s * y / 8) for y in range(1, 100) for s in (1, -1) if s * y not in (8, 16)]
def _kinds(k):
    return [2] if k < 0 else [1, 2] if k == 0 else [0, 1, 2] if k < 23 else [0, 1] if k == 23 else [0]
def _pn(ks):
    return [(k, s, d) for k in ks for s in (0, 1) for d in _kinds(k) if (k, s, d) not in ((0, 0, 1), (1, 0, 0))]
spec("C21", [
    J("h_math", "sqrt_special", icp=60), J("h_math", "cbrt_special", icp=60), J("h_math", "pow_special", icp=60), J("h_math", "pow_square", icp=60),
    J("h_math", "pow_positive", icp=5, weight=3), J("h_math", "any_pair", icp=3, weight=4), J("h_math", "any_argument", [3, 13], icp=60),
    J("h_math", "pow_negative", _pn((-20, -1, 0, 1, 3, 10, 22, 23, 24, 30)), icp=1),
    J("h_math", "odd", [3]),
    J("h_acc", "accuracy", [(11, _MIN, _MAX, 0), (12, _MIN, _MAX, 0)], **_A),
    J("h_acc", "power", _PW, **_A), J("h_acc", "power", _PW2, tier="thorough", **_A),
    J("h_acc", "tiny", [(11, 0, _MIN, 0), (12, 0, _MIN, 0)], **_A),
    J("h_math", "pow_negative", _pn(range(-10, 31)), icp=1, tier="thorough"),
], bounds="none on the arguments of sqrt and cbrt: all 2^32 bit patterns are covered, the accuracy claims over every normal number; pow: every pair of patterns for the special cases, positivity for every positive base and exponent, whole and fractional exponents of a negative base in ten binades (41 in thorough), accuracy for fifteen exponents (213 in thorough) over every base whose power is a normal number",
   outside="the accuracy of pow for other exponents; what pow(0, y) should be for y < 0 (the code says 0)",
   assumptions=["the host C library's double sqrt and cbrt are accurate to 4 units in the last place (reference for the accuracy claims)"],
   technique="symbolic execution from LLVM IR; interval branch-and-prune with mean-value forms over the argument (accuracy), z3/kissat (bit-level claims)")
spec("C22", [
    J("h_math", "odd", [0, 1, 2, 3]), J("h_math", "odd", [4], icp=2, weight=3), J("h_math", "even"),
    J("h_math", "range", [(f, s) for f in (1, 2, 5, 9, 12) for s in (0, 1)], icp=60),
    J("h_math", "range", [(6, 0), (6, 1), (7, 0), (7, 1)], icp=10, weight=2),
    J("h_math", "complement", icp=60), J("h_math", "nan_in", icp=60), J("h_math", "constants"), J("h_math", "logs", icp=60),
    J("h_math", "any_argument", [0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12], icp=5),
], bounds="none: every claim quantifies over all 2^32 bit patterns of the argument (NaN arguments where named)",
   outside="bit-for-bit symmetry of sin, cos and tan (their argument reduction is not symmetric); what exp, log, tanh and cosh return for NaN (they clamp it)",
   technique="symbolic execution from LLVM IR; interval branch-and-prune and z3/kissat decide each query")
_D = {0: (0, 87.33, 1), 1: (1.17549435e-38, None, 0), 2: (1.17549435e-38, None, 0), 3: (0, 6.2832, 1), 4: (0, 6.2832, 1), 5: (0, 1.5, 1), 6: (0, 87.33, 1),
      7: (0, 87.33, 1), 8: (0, None, 1), 9: (0, None, 1), 10: (0, None, 1), 13: (0, 1, 1)}
_AC = [(f, _b(lo), _MAX if hi is None else _b(hi), s) for f, (lo, hi, sg) in _D.items() for s in range(sg + 1)]
_FAR = [(f, _b(lo), _b(hi), s) for f in (3, 4, 5) for lo, hi in ((6.2832 if f != 5 else 1.5, 64.0), (64.0, 512.0)) for s in (0, 1)]
_FAR2 = [(f, _b(lo), _b(hi), s) for f in (3, 4, 5) for lo, hi in ((512.0, 1024.0), (1024.0, 2048.0), (2048.0, 4096.0), (4096.0, 8192.0)) for s in (0, 1)]
_FARW = [(f, _b(lo) + o, _b(lo) + o + 65536, (k + f) % 2) for f in (3, 4, 5) for lo in (512.0, 1024.0, 2048.0, 4096.0) for k, o in enumerate((0, 0x3f0000, 0x7effff))]
spec("C23", [
    J("h_acc", "accuracy", _AC, **_A), J("h_acc", "accuracy", _FAR, weight=2, **_A),
    J("h_acc", "accuracy", _FARW, **_A),
    J("h_acc", "accuracy", _FAR2, tier="thorough", **_A),
], bounds="every float of each function's domain: exp, sinh and cosh on [-87.33, 87.33], log and log10 on every positive normal number, sin, cos and tan on [-512, 512] and on windows of 65536 consecutive numbers at both ends and in the middle of each further binade up to 8192 (thorough: all of [-8192, 8192]), tanh, erf and erfc on every number, ierf on (-1, 1)",
   outside="arguments outside those domains",
   assumptions=["the host C library's double results are accurate to 4 units in the last place (reference for the accuracy claims)"],
   technique="symbolic execution from LLVM IR; interval branch-and-prune with mean-value forms over the argument")
