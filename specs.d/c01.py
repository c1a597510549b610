spec("C01", [
    J("h_vector", "onestep", [(0, 8, 1, 18), (1, 6, 1, 14), (2, 6, 1, 14), (0, 2, 2, 5)], weight=5),
    J("h_vector", "history", [(0, 3, 3), (0, 4, 2)]),
    J("h_vector", "longrun", [(0, 9), (0, 70), (1, 300), (0, 2100), (1, 4200), (2, 300)]), J("h_vector", "huge", [(t, 66000) for t in (0, 1, 2)]),
    J("h_vector", "onestep", [(0, 12, 1, 28), (0, 4, 2, 9), (1, 3, 2, 7), (2, 3, 2, 7)], tier="thorough", time=3000),
    J("h_vector", "history", [(0, 4, 3), (0, 5, 2)], tier="thorough", time=3000),
], bounds="vector<int>: every pre-state with capacity <= 8 (second vector <= 2), any size, arbitrary elements, then 1 operation of 16 kinds with arbitrary arguments, resize and assign up to 18; vector<unsigned char> and vector<24-byte struct>: the same with capacity <= 6, up to 14; 2 operations for capacity <= 2; all histories of 3 operations (resize <= 3) and 4 operations (resize <= 2) from empty; fixed long runs up to 4200 elements with arbitrary element values, and one of 66000 with three arbitrary ones. Thorough: capacity <= 12, 2 operations for capacity <= 4, histories of 4 (resize <= 3) and 5.",
   outside="larger capacities than those listed, assign from iterators into the same vector (a precondition violation), operator+= (declared but never defined)")
spec("C02", [
    J("h_vector", "onestep", [(3, 5, 1, 12), (3, 2, 2, 4)], weight=5),
    J("h_vector", "history", [(3, 3, 2)]),
    J("h_vector", "longrun", [(3, 20), (3, 140)]), J("h_vector", "huge", [(3, 300)]),
    J("h_valarray", "onestep", [(3, 5, 1, 12), (3, 2, 2, 4)], weight=5),
    J("h_valarray", "history", [(3, 3, 2)]),
    J("h_valarray", "longrun", [(3, 20), (3, 40)]), J("h_valarray", "huge", [(3, 300)]),
    J("h_vector", "onestep", [(3, 8, 1, 18), (3, 3, 2, 7)], tier="thorough", time=3000),
    J("h_valarray", "onestep", [(3, 8, 1, 18), (3, 3, 2, 7)], tier="thorough", time=3000),
    J("h_vector", "history", [(3, 4, 2)], tier="thorough", time=3000),
], bounds="element type owning heap memory (every construction, copy and destruction observable): every pre-state with capacity <= 5, 1 arbitrary operation with arguments up to 12 (2 operations for capacity <= 2), all histories of 3 operations from empty, runs of up to 140 elements, sizes up to 300; each access checked for bounds, lifetime and release kind, leaks checked at exit. Thorough: capacity <= 8, 2 operations for capacity <= 3, histories of 4",
   outside="larger capacities")
spec("C15", [
    J("h_valarray", "onestep", [(0, 8, 1, 18), (1, 6, 1, 14), (2, 6, 1, 14), (0, 2, 2, 5)], weight=5),
    J("h_valarray", "history", [(0, 3, 3), (0, 4, 2)]),
    J("h_valarray", "longrun", [(0, 9), (0, 60), (1, 130), (0, 1100), (1, 2100)]), J("h_valarray", "huge", [(t, 66000) for t in (0, 1, 2)]),
    J("h_valarray", "vsin", [(4, n) for n in (0, 1, 2, 3, 4, 8, 33)]),
    J("h_valarray", "onestep", [(0, 12, 1, 28), (0, 4, 2, 9)], tier="thorough", time=3000),
    J("h_valarray", "history", [(0, 4, 3), (0, 5, 2)], tier="thorough", time=3000),
], bounds="valarray<int>: every pre-state with capacity <= 8, 1 arbitrary operation of 13 kinds with arguments up to 18 (valarray<unsigned char>, <24-byte struct>: capacity <= 6, up to 14; 2 operations for capacity <= 2), histories of 3 (resize <= 3) and 4 (resize <= 2), long runs up to 2100, one of 66000; sin of valarray<float> of length <= 3 with every element in (-1e4,1e4), of lengths up to 33 with one arbitrary element among fixed ones. Thorough: capacity <= 12, 2 operations for capacity <= 4, histories of 4 and 5",
   outside="larger capacities; scalar sin itself (C22)")
