spec("C03", [
    J("h_string", "build", [(h, 16) for h in range(6)]),
    J("h_string", "ops", [(12, 8, 1, 4), (10, 4, 1, 2), (8, 4, 1, 0), (8, 4, 1, 3), (6, 4, 1, 1), (6, 4, 1, 5)]),
    J("h_string", "ops", [(4, 4, 2, 2), (3, 3, 2, 4), (1, 1, 3, 2), (2, 2, 3, 0)]),
    J("h_string", "longtext", [(20,), (100,), (600,), (4200,)]), J("h_string", "hugetext", [66000]),
    J("h_string", "ops", [(20, 14, 1, 4), (20, 14, 1, 2)], tier="thorough", time=3000),
    J("h_string", "ops", [(8, 6, 2, 2), (3, 2, 3, 2), (1, 1, 4, 0)], tier="thorough", time=3000),
], bounds="strings of up to 16 arbitrary bytes built in 6 public ways; every pre-state string of <= 12 bytes (second operand <= 8) followed by 1 operation of 14 kinds with arbitrary arguments, 2 operations for <= 4 bytes, 3 operations for <= 2 bytes; fixed lengths 20, 100, 600 and 4200 with arbitrary bytes, and 66000 with two arbitrary ones. Thorough: 20 bytes, 2 operations for <= 8, 4 operations for <= 1",
   outside="longer texts under arbitrary operation sequences, character types other than char, stream output")
spec("C04", [
    J("h_string", "cmp", [(n, m) for n in range(9) for m in range(9)] + [(12, 12), (24, 24), (7, 20), (20, 7)]), J("h_string", "cmp_long", [(300, 0), (300, 1), (300, 256), (66000, 0)]),
    J("h_string", "cmp", [(n, m) for n in range(9, 18) for m in range(18)] + [(64, 64), (63, 64)], tier="thorough"),
], bounds="all pairs of strings of 0..8 arbitrary non-NUL bytes (and 12 against 12, 24 against 24, 7 against 20). Thorough: 0..17, 64", outside="longer strings, strings with embedded NUL bytes")
spec("C05", [
    J("h_string", "i32", [(k, s) for k in range(1, 11) for s in (0, 1)]),
    J("h_string", "u32", list(range(1, 11))),
    J("h_string", "i64", [(k, s) for k in range(1, 20) for s in (0, 1)]),
    J("h_string", "u64", list(range(1, 21))),
], bounds="every int, unsigned int, int64_t and uint64_t value (one job per sign and digit count)", outside="nothing further")
