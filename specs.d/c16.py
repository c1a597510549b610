spec("C16", [
    J("h_uptr", "histories", [(0, 2), (1, 2), (0, 3)]),
    J("h_uptr", "steps", [(0, 1), (1, 1), (0, 2), (1, 2)]),
    J("h_uptr", "arrays", [3]), J("h_uptr", "conversions"), J("h_uptr", "ordering"), J("h_uptr", "lookback"), J("h_uptr", "chain", [4]),
    J("h_uptr", "histories", [(1, 3)], weight=3),
    J("h_uptr", "steps", [(0, 3), (1, 3)], tier="thorough", time=3000),
    J("h_uptr", "histories", [(0, 4)], tier="thorough", time=3400), J("h_uptr", "chain", [9], tier="thorough"), J("h_uptr", "arrays", [9], tier="thorough"),
], bounds="every history of up to 3 operations (reset, release, move, swap, adopt, self-move ...) on three pointers starting empty, and of up to 2 operations starting from every mix of empty and owning pointers, with and without a stateful deleter; arrays of up to 4 elements; owner chains of up to 4 nodes; deleters that inspect or act on their owner. Thorough: 4 and 3 operations, chains of 9",
   outside="longer histories, more than three pointers, deleters that throw")
spec("C17", [
    J("h_opt", "histories", [(0, 2, 0), (1, 2, 0), (2, 2, 0), (0, 1, 1), (1, 1, 1), (2, 1, 1), (0, 2, 1), (1, 2, 1), (2, 2, 1)]),
    J("h_opt", "comparisons", [0, 1, 2]), J("h_opt", "misc"),
    J("h_opt", "histories", [(0, 3, 0), (1, 3, 0), (2, 3, 0)], weight=3),
    J("h_opt", "histories", [(0, 3, 1), (1, 3, 1), (2, 3, 1)], tier="thorough", time=3000),
], bounds="every history of up to 3 operations on three optionals starting empty and of up to 2 starting from every mix of empty and engaged, for int, for a class that owns heap memory and for one with move operations, with arbitrary values. Thorough: 3 operations from every mix",
   outside="longer histories; value() of an empty optional (the error path); C++14/17 modes; hash of optional (its specialisation is ill-formed, see DESIGN.md)")
VX = ("repo:src/nanoexception.cc",)
spec("C18", [
    J("h_var", "histories", [(1, 0), (2, 0), (1, 1), (2, 1)], opts=VX),
    J("h_var", "visit2", opts=VX), J("h_var", "comparisons", opts=VX), J("h_var", "alternatives", list(range(16)), opts=VX),
    J("h_var", "histories", [(3, 0)], opts=VX, tier="thorough", time=3000), J("h_var", "histories", [(3, 1)], opts=VX, tier="thorough", time=3400),
], bounds="every history of up to 2 operations on two variants over {int, double, two classes that own heap memory}, from the default state and from every pair of alternatives, with arbitrary values; all sixteen alternative positions through one scripted sequence each. Thorough: 3 operations",
   outside="longer histories, throwing constructors (valueless variants), the error path of get, comparisons holding NaN")
spec("C19", [
    J("h_misc", "sstream", [(1, 12), (2, 6), (3, 4)]), J("h_misc", "sstream_own", [4]), J("h_misc", "sstream_long", [(1, 300), (12, 20), (20, 9)]),
    J("h_misc", "sstream", [(4, 2), (3, 6)], tier="thorough", time=3000), J("h_misc", "sstream_own", [12], tier="thorough"),
], bounds="every history of up to 3 operations (insert, chained insert, clear, move assignment, assignment through str(), insertion of the other stream's text) on two streams, inserted strings of 0..4 (6 for 2 operations, 12 for 1) arbitrary non-NUL characters; runs of up to 20 insertions and one of 300 characters. Thorough: 4 operations, strings of 6",
   outside="longer histories; insertion of anything but strings (stringstream has no other operator)")
spec("C20", [
    J("h_misc", "pair", [0, 1, 2, 3]), J("h_misc", "pairlaws"), J("h_misc", "swaps"), J("h_misc", "tuple", [0, 1, 2, 3]), J("h_misc", "tuplelaws"), J("h_misc", "tuplemisc"),
], bounds="pairs and triples over int, unsigned, signed char and a class owning heap memory with every component value; order laws over every three pairs and every three triples of components that compare by key; one-, two- and six-component, empty-component and reference-component tuples",
   outside="allocator-extended construction, wider tuples, the C++17 fold-expression variant of the operators")
