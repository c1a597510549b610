# Insertions performed on other maps first (through the public interface) so that the pseudo-random
# priorities of the next 3 / 4 / 5 insertions take every relative order.
P3 = [0, 1, 2, 3, 4, 7]
P4 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 19, 20, 21, 24, 25, 40, 42, 43, 46, 54, 60, 62, 68]
P5 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 18, 19, 20, 21, 22, 23, 24, 25, 27, 30, 31, 33, 34, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 67, 68, 69, 70, 71, 74, 75, 77, 79, 81, 83, 86, 88, 89, 94, 96, 97, 99, 103, 104, 105, 107, 115, 116, 118, 119, 124, 126, 127, 128, 136, 138, 139, 141, 151, 153, 154, 159, 160, 161, 164, 181, 184, 190, 191, 193, 206, 208, 224, 230, 231, 238, 239, 254, 281, 293, 295, 296, 307, 310, 315, 317, 328, 332, 341, 361, 364, 366, 526, 598]
spec("C08", [
    J("h_map", "history", [(0, b, 3) for b in P3] + [(0, b, 4) for b in (0, 2, 5)]),
    J("h_map", "history", [(1, 0, 3), (2, 1, 3), (3, 0, 3), (4, 1, 3), (5, 7, 3)]),
    J("h_map", "inserts", [(b, 4) for b in P4] + [(b, 5) for b in P5[:12]]),
    J("h_map", "longrun", [(0, 24, 0), (3, 24, 1), (5, 24, 2), (0, 60, 0), (100, 60, 1), (1000, 60, 2)]),
    J("h_map", "history", [(0, b, 4) for b in P4], tier="thorough", time=900),
    J("h_map", "inserts", [(b, 5) for b in P5], tier="thorough", time=600),
    J("h_map", "longrun", [(b, 60, o) for b in (0, 100, 1000) for o in (0, 1, 2)], tier="thorough"),
], bounds="map<int,int>: every history of 3 insert / operator[] write / operator[] read operations with arbitrary keys and values under all 6 relative priority orders (4 operations under 3 orders), every history of 4 inserts under all 24 orders and 5 inserts under 12; 3 operations with unsigned char, long long, string and heap-owning keys and values; fixed runs of 24 and 60 keys in ascending, descending and scattered order with arbitrary values and an arbitrary query key. Thorough: histories of 4 (24 priority orders), 5 inserts (120 orders)",
   outside="longer histories with arbitrary keys; priority sequences are the generator's own (every relative order for the stated lengths)")
OWN = ((0, 0, 2, 1), (0, 2, 2, 1), (1, 1, 2, 2), (2, 3, 2, 1), (3, 0, 2, 2))
OWNT = ((0, 4, 2, 2), (1, 7, 3, 2), (3, 0, 3, 2), (2, 2, 3, 1))
spec("C09", [
    J("h_map", "ownership", [p + (c,) if c != 4 else p[:3] + (1, c) for c in range(6) for p in OWN]),
    J("h_map", "ownership", [p + (c,) for c in range(6) for p in OWNT], tier="thorough", time=1500),
], bounds="maps with heap-owning keys and/or values, string keys, and int maps: every history of 2 to 3 operations with arbitrary keys and values, then each of 6 copy / assign / self-assign / reference scenarios with 1 to 2 further operations on either side; every access checked for bounds and lifetime, leaks checked at exit", outside="longer histories")
