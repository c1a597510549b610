spec("C10", [
    J("h_algo", "minmaxclamp", list(range(7))),
    J("h_algo", "maxelement", [(0, 6), (1, 7)], weight=3),
    J("h_algo", "fillrange", [10]), J("h_algo", "distances", [12]), J("h_algo", "copybytes", [14]), J("h_algo", "bigger", [17, 64, 300, 4000, 66000]),
    J("h_algo", "maxelement", [(0, 7), (1, 12)], tier="thorough", time=1500),
    J("h_algo", "fillrange", [24], tier="thorough"), J("h_algo", "distances", [40], tier="thorough"), J("h_algo", "copybytes", [40], tier="thorough"),
], bounds="min/max/clamp for every int, unsigned, long long, unsigned char, non-NaN float and double value and for records with equal keys; max_element on every range of <= 6 or 7 arbitrary elements; fill on <= 10, distance <= 12 and memcpy <= 14 elements or bytes with arbitrary contents, and fixed blocks of 17 to 66000 bytes. Thorough: ranges of 12 to 40",
   outside="NaN arguments of min/max/clamp, longer ranges")
spec("C11", [J("h_num", "classes32"), J("h_num", "classes64"), J("h_num", "copysign32"), J("h_num", "minmax32"), J("h_num", "minmax64")],
   bounds="every float and every double bit pattern (pairs for fmin/fmax/copysign)", outside="the sign and payload of NaN results")
spec("C12", [J("h_num", "ceilfloor32"), J("h_num", "ceilfloor64")], bounds="every float and every double bit pattern", outside="the sign of a zero result for a non-zero argument")
spec("C13", [J("h_num", "intlimits"), J("h_num", "floatlimits32"), J("h_num", "floatlimits64")], bounds="every value of bool, char, unsigned char, short, unsigned short, int, unsigned, long long, unsigned long long, float and double", outside="nothing further")
H = ("repo:src/hash.cc",)
spec("C14", [
    J("h_hash", "sip", [(n, o) for o in (8, 16) for n in list(range(0, 26)) + [31, 32, 63, 64]] + [(256, 8)], opts=H),
    J("h_hash", "sip_long", [(n, o, 3) for n, o in ((600, 8), (1027, 16), (2053, 8), (65541, 8), (131072, 16))], opts=H),
    J("h_hash", "integers", list(range(15)), opts=H),
    J("h_hash", "sip", [(n, o) for o in (8, 16) for n in range(26, 130)], opts=H, tier="thorough"),
], bounds="siphash: every key and every message of length 0..25, 31, 32, 63, 64 and 256, and messages of 600 to 131072 bytes of which the last 3 are arbitrary (8- and 16-byte output; thorough: 0..129); hash<T> for every pair of values of every hashable scalar type", outside="longer messages; hash of unique_ptr / optional (not instantiable for lack of a pointer hash)")
