prop("C01", "vector behaves as a growable sequence under every operation history",
 "After any sequence of construct, copy, assign, resize, push_back, pop_back, erase, clear, swap and element writes, a vector holds exactly the elements (and size, empty(), capacity() >= size()) that a mathematical sequence subjected to the same operations would hold. resize keeps the first min(old,new) elements and value-initialises the ones it appends, and resize(0) empties the vector; erase returns an iterator to the element that followed the erased one; iteration from begin() to end() visits the elements in index order.",
 ["histories", "inputs"], "all histories of the listed operations on vectors up to the bounded size, with arbitrary element values",
 "The tests run three or four fixed histories with constants; growth boundaries, erase positions, self-assignment and shrink-then-grow combinations are not sampled.",
 ["include/nanovector.h", "include/nanoallocator.h"],
 [("growth and copy", "vector::resize"), ("append", "vector::push_back/assign"), ("removal", "vector::erase/pop_back/clear")],
 ["size()", "empty()", "capacity()", "operator[]", "at()", "begin()/end()", "data()"],
 [("elements_", "heap buffer"), ("size_", "live elements"), ("capacity_", "allocated elements")])

prop("C02", "vector and valarray never touch memory they do not own, and free what they own",
 "No operation history on vectors or valarrays, including appending a reference to one of the container's own elements, self-assignment and swapping, reads or writes outside the container's live storage, uses freed storage, or frees storage twice. Every element object constructed by the container is destroyed exactly once and all storage is released when the containers are destroyed; copies are independent of their originals, and copying from a container, or growing it within capacity(), leaves references into it valid.",
 ["histories", "inputs"], "all operation histories within the bounds, for scalar elements and for class-type elements that own heap memory",
 "Tests do not run under a sanitizer, use only int elements, and never alias an argument with the container or reach a reallocation with a live alias.",
 ["include/nanovector.h", "include/nanovalarray.h", "include/nanoallocator.h"],
 [("reallocation", "vector::resize"), ("release", "~vector, allocator::deallocate")],
 ["memory accesses", "constructor/destructor balance"])

prop("C03", "string keeps exact contents, length and NUL terminator under all operations",
 "A string built from a NUL-terminated text, a (pointer,count) pair, a [first,last) pointer range or another string, and then changed by assignment, operator+, operator+=, (including s += s), element writes, erase and clear, has size()/length() equal to its number of characters, empty() true exactly when that is 0, exactly those characters in order, and c_str()[size()] == NUL (texts contain no NUL character themselves, except that a (pointer,count) pair may). operator+ leaves its operands unchanged and copies share no state.",
 ["histories", "inputs"], "all character contents and operation histories within the length bounds",
 "Tests check a handful of constant strings and never call the counted or range constructors, erase, clear or self-append.",
 ["include/nanostring.h", "include/nanovector.h"],
 [("construction", "basic_string constructors"), ("append", "basic_string::operator+="), ("length", "basic_string::size/length/empty")],
 ["size()", "length()", "empty()", "c_str()", "operator[]", "at()"])

prop("C04", "string comparison is a total lexicographic order on unsigned bytes",
 "For all strings and C strings without embedded NUL characters, compare() is negative, zero or positive exactly according to the lexicographic order of their characters taken as unsigned bytes, with a proper prefix ordered first. The operators ==, !=, < and > (against strings and C strings) agree with compare(), and comparing reads no byte beyond either terminator.",
 ["inputs"], "all pairs of NUL-free strings of bounded length over all 256 byte values",
 "Tests compare no strings containing bytes >= 0x80, prefixes or embedded differences; the quantifier is over all pairs of contents.",
 ["include/nanostring.h"],
 [("byte compare loop", "basic_string::compare_")],
 ["compare()", "operator==", "operator!=", "operator<", "operator>"])

prop("C05", "to_string of integers is the canonical decimal representation",
 "For every int, unsigned int, int64_t and uint64_t value, to_string returns exactly its canonical decimal text: an optional '-' only for negatives, no leading zeros, '0' for zero, and reading the digits back yields the value. No value makes the conversion write outside its buffer or execute undefined behaviour.",
 ["inputs"], "all 2^32 int/unsigned and all 2^64 int64_t/uint64_t values",
 "Tests convert three small constants; INT_MIN, ten-digit negatives and 64-bit magnitudes are not sampled.",
 ["include/nanostring.h", "include/nanolimits.h"],
 [("digit loop", "to_string(int), to_string(int64_t)"), ("buffer size", "numeric_limits<T>::digits10")],
 ["returned string"])

prop("C06", "to_string of float/double gives the shortest text that reads back exactly",
 "For every finite float or double, to_string yields a well-formed decimal text (sign, digits with the point after the first digit, 'E' exponent) whose exact value rounds back to the very same number, with no shorter digit sequence, and no closer one of equal length, having that property. Zeros, infinities and NaN give 0E0/-0E0, Infinity/-Infinity and NaN, and no value writes outside the output buffer.",
 ["inputs"], "all float and double bit patterns within the windows placed on every exponent",
 "A few constants are tested; rounding-boundary mantissas, power-of-two edges and extreme exponents are individually rare among 2^32/2^64 inputs.",
 ["include/__nanostrutil.h", "include/nanostring.h", "include/ryu/d2s_full_table.h"],
 [("shortest search", "ryu::f2d, ryu::d2d"), ("printing", "ryu::to_chars"), ("specials", "ryu::copy_special_str")],
 ["to_string(float)", "to_string(double)"])

prop("C07", "stof/stod accept exactly decimal float text and round it correctly",
 "Text made of an optional '-', at least one decimal digit with at most one '.', and an optional exponent (e or E, optional '-' or '+', at least one digit) converts to the nearest representable value with ties to even, overflowing to infinity and underflowing to zero with the text's sign; any other text, and text with more than 9 (stof) or 17 (stod) significant digits or 4 significant exponent digits, gives NaN. No input, whatever its bytes or length, makes the conversion read outside the text or execute undefined behaviour.",
 ["inputs"], "all byte strings up to the bounded length, and all digit sequences within the windows at every decimal exponent",
 "The only test converts one constant; malformed text, long digit strings and halfway cases are not sampled.",
 ["include/__nanostrutil.h", "include/nanostring.h"],
 [("scanner", "ryu::s2f_n, ryu::s2d_n"), ("entry points", "stof, stod")],
 ["stof()", "stod()", "ryu::s2f_n/s2d_n status"])

prop("C08", "map is an ordered map with unique keys under every operation history",
 "After any sequence of insert and operator[] calls, find, operator[], upper_bound, empty and iteration agree with a mathematical map: insert never overwrites an existing key and reports whether it inserted, operator[] creates a value-initialised entry only when missing, find and upper_bound return the matching or next greater key or end(). Iterating from begin() to end() visits every key exactly once in ascending order.",
 ["histories", "inputs"], "all insertion orders and key/value contents within the bounded number of operations",
 "Tests insert two keys; insertion orders, rotations of the balanced tree, lookups of absent keys and whole-range iteration are not covered.",
 ["include/nanomap.h", "include/nanoutility.h"],
 [("tree insert/rotate", "map::__insert, map::__rotate"), ("search", "map::__find, map::__upper_bound"), ("iteration", "map::begin, map::iterator::operator++")],
 ["insert()", "operator[]", "find()", "upper_bound()", "begin()/end()", "empty()"],
 [("root", "tree root"), ("pri", "heap priority per node")])

prop("C09", "map owns its nodes: copies are independent and nothing leaks or dangles",
 "Copying or assigning a map (including to itself) yields an equal map with its own entries, so changing or destroying one leaves the other intact, and references to entries stay valid across later insertions. Every entry is destroyed exactly once and no history reads or writes freed or foreign memory.",
 ["histories", "inputs"], "all histories of insertion, copy, assignment and destruction within the bounds",
 "No test copies or assigns a map or runs under a memory checker.",
 ["include/nanomap.h"],
 [("ownership", "map::~map, map::__delete, map copy operations")],
 ["memory accesses", "contents after copy"])

prop("C10", "min, max, clamp, max_element, fill, distance and memcpy meet their contracts",
 "For every input without NaN, min and max return a reference to the smaller/larger argument (the first one when equal), clamp returns the value forced into [low,high], max_element returns the first position holding a maximal element (end for an empty range), and distance is the signed element count. fill (both the plain and the execution-policy form) and memcpy write exactly the given range and leave every other byte unchanged.",
 ["inputs"], "all element values and all subranges of arrays up to the bounded length",
 "Tests call each once or not at all, with distinct constants, so ties, empty ranges and neighbours of the written range are never observed.",
 ["include/nanoalgorithm.h", "include/nanomath.h", "include/nanoiterator.h", "include/nanocstring.h", "include/nanoexecution.h"],
 [("comparison", "min, max, max_element, clamp"), ("range writes", "fill, memcpy")],
 ["returned reference/iterator", "memory contents"])

prop("C11", "Float classification, fabs, copysign, fmin and fmax are exact on all bits",
 "For every float and double bit pattern exactly one of NaN, infinite, zero, subnormal and normal holds and isnan, isinf, isfinite and isnormal report it. fabs clears the sign (including of -0.0), copysign combines the magnitude of its first with the sign of its second argument bit for bit, and fmin/fmax return the smaller/larger argument, preferring the non-NaN one.",
 ["inputs"], "all 2^32 float and 2^64 double bit patterns (and all pairs)",
 "Tests sample a few representatives; a wrong mask or bound only shows on particular exponents, mantissas or signs.",
 ["include/nanomath.h", "include/nanolimits.h"],
 [("bit tests", "isnan, isinf, isfinite, isnormal"), ("selection", "fmin, fmax, fabs, copysign")],
 ["return values"])

prop("C12", "ceil and floor return the IEEE result for every float and double",
 "For every float and double x, floor(x) is the greatest integral value not above x and ceil(x) the least integral value not below x; integral values, infinities and NaN map to themselves (the sign of a zero result is unspecified). No argument causes undefined behaviour.",
 ["inputs"], "all float and double bit patterns",
 "Tests use a few halves; magnitudes beyond int, tiny fractions and special values are not sampled.",
 ["include/nanomath.h"], [("rounding", "ceil, floor")], ["return values"])

prop("C13", "numeric_limits values are the true extremes of each type",
 "For every supported arithmetic type no value lies outside [lowest(), max()] and both bounds are attained, min() is the lowest integer value or smallest positive normal number, denorm_min() the smallest positive number, and epsilon() the gap between 1 and the next number. infinity() exceeds every finite value, quiet_NaN() and signaling_NaN() are NaN, and every decimal with digits10 digits is representable while some with digits10+1 digits is not.",
 ["inputs"], "all values of each specialised type",
 "Tests compare a few constants with tolerance; 'no value outside' and 'no smaller positive number' quantify over the whole type.",
 ["include/nanolimits.h"], [("constants", "numeric_limits specialisations")], ["min/max/lowest/epsilon/denorm_min/infinity/quiet_NaN/digits10"])

prop("C14", "hash respects equality, and the string/byte hash is SipHash-2-4",
 "Equal values of every scalar type that hash<> is specialised for have equal hashes (in particular +0.0 and -0.0), repeated calls agree, and hashes of the integer and boolean types distinguish distinct values of one type. The byte-sequence hash returns the published SipHash-2-4 value for every key and message (8- and 16-byte outputs) and reads exactly the message bytes.",
 ["inputs"], "all values of each specialised scalar type; all keys and messages up to the bounded length",
 "No test calls any hash; equality/hash agreement is a relation over pairs of inputs.",
 ["include/nanofunctional.h", "src/hash.cc", "include/__hashfunc.h"],
 [("functors", "hash<T>::operator()"), ("SipHash", "siphash")], ["hash values", "output bytes"])

prop("C15", "valarray behaves as an array under every history and maps sin elementwise",
 "After any sequence of construct, copy, assign, resize, erase, clear, swap and element writes, a valarray has the size and elements of a mathematical sequence subjected to the same operations (resize(0) empties it, resize value-initialises the elements it appends, erase returns the following position). sin of a valarray has the same length and its i-th element is the scalar sin of the i-th argument, and copies are independent.",
 ["histories", "inputs"], "all histories within the bounds with arbitrary element values",
 "The tests build one four-element valarray and take its sine.",
 ["include/nanovalarray.h", "include/nanomath.h"],
 [("storage", "valarray::resize/assign/erase"), ("elementwise", "sin(valarray)")],
 ["size()", "operator[]", "begin()/end()"])

prop("C16", "unique_ptr deletes its object exactly once and moves transfer ownership",
 "At all times an object handed to a unique_ptr is owned by exactly one of them: construction, move construction, move assignment (including self-move), reset, release and swap transfer it as the standard prescribes, and the deleter runs exactly once per owned object and never for a null or released pointer. Arrays use the array deleter and comparisons and conversion to bool agree with the held pointer.",
 ["histories", "inputs"], "all histories of the listed operations over a bounded number of pointers and objects",
 "Tests create one pointer; sequences of moves, resets and releases are not sampled.",
 ["include/nanomemory.h"], [("ownership", "unique_ptr::reset/release/operator=/swap"), ("deleter", "default_delete")],
 ["destructor calls", "get()", "operator bool"])

prop("C17", "optional tracks engagement and destroys its value exactly once",
 "Through any history of construction, assignment from value, optional or nullopt, reset, emplace, swap, copy and move, an optional is engaged exactly when a value was last given, holds that value, and value_or returns it or the default. Contained objects are constructed and destroyed exactly once, and the comparison operators order an empty optional before every engaged one and otherwise compare the values.",
 ["histories", "inputs"], "all histories within the bounds with arbitrary values",
 "Tests check one engaged and one empty optional of a scalar.",
 ["include/nonstd/optional.hpp", "include/nanooptional.h"],
 [("storage", "optional_lite::detail::storage_t"), ("assignment", "optional::operator=, emplace, reset, swap")],
 ["has_value()", "value()", "operator*", "value_or()", "comparisons"])

prop("C18", "variant holds exactly the last assigned alternative and never another",
 "Through any history of construction, assignment of any alternative, emplace, copy, move, swap and visitation, a variant reports the index of the alternative given last, get/get_if yield that value and get_if of any other alternative is null. The held object is constructed and destroyed exactly once, also when the alternative changes, and equal-index comparison follows the values while different indexes order by index.",
 ["histories", "inputs"], "all histories within the bounds over three alternatives including one with a non-trivial destructor",
 "Tests assign one alternative and read it back.",
 ["include/nonstd/variant.hpp", "include/nanovariant.h"],
 [("type switch", "variant::copy_assign/move_assign/assign_alternative"), ("visitation", "visit")],
 ["index()", "get<>", "get_if<>", "holds_alternative", "visit"])

prop("C19", "stringstream accumulates exactly the concatenation of what was inserted",
 "str() is the concatenation, in order, of all strings inserted since construction, the last clear() or the last assignment to str(). Move assignment transfers the contents and leaves the source empty, and inserting never changes the inserted string.",
 ["histories", "inputs"], "all insert/clear/move histories within the bounds with arbitrary contents",
 "No test exercises stringstream.",
 ["include/nanosstream.h", "include/nanostring.h"], [("accumulation", "stringstream::operator<<, str, clear")], ["str()"])

prop("C20", "pair and tuple keep their components and order lexicographically",
 "make_pair and the pair and tuple constructors store their arguments unchanged, component access returns the stored component, and swap exchanges components. == holds exactly when all components are equal and < (and for tuples !=, >, <=, >=) is the lexicographic strict weak order of the components.",
 ["inputs"], "all component values, all pairs and triples of such objects",
 "No test compares pairs or tuples; order laws quantify over pairs and triples of values.",
 ["include/nanoutility.h", "include/tao/tuple/tuple.hpp", "include/nanotuple.h", "include/nanotype_traits.h"],
 [("pair comparison", "operator==, operator< on pair"), ("tuple comparison", "tuple_equal, tuple_less"), ("swap", "nanostl::swap")],
 ["comparisons", "get<>"])

prop("C21", "sqrt, cbrt and pow are accurate and correct on special values",
 "For every positive normal float sqrt is within 0.2% of the true root and cbrt (odd bit for bit) within 0.0002% of the true cube root, for smaller numbers within 2e-20 and 1e-13; both keep signed zeros, +infinity and NaN, and sqrt of a negative argument is NaN. pow(x,0) is 1, pow(x,1) is x, pow(x,2) is x*x clamped to the largest float, pow(0,y) is 0 for y > 0, a positive base gives a positive finite result within a relative error of 3e-5 + 9e-6*|y| while the true power is a normal number, and a negative base gives 0 for a fractional exponent and plus or minus the power of its magnitude for an even or odd one.",
 ["inputs"], "all float bit patterns (for pow, all pairs in the stated special cases, all bases for each exponent in a list)",
 "Tests compare about ten values; the accuracy claim is over all inputs and special cases hinge on rare bit patterns.",
 ["include/nanomath.h"], [("Newton iterations", "sqrt, cbrt"), ("special cases", "pow")], ["return values"])

prop("C22", "Approximated elementary functions obey symmetry, range and special values",
 "For every float bit pattern sinh, tanh, erf and ierf are odd and cosh is even, bit for bit; |tanh| and |erf|, and for finite arguments |sin| and |cos|, never exceed 1, exp is positive and finite, cosh at least 1, and erfc(x) equals 1-erf(x) and lies in [0,2]. log and log10 give -infinity at zero, 0 at one and NaN below zero, exp, cos, cosh and erfc are exactly 1 and sin, tan, sinh, tanh, erf and ierf exactly 0 at zero, tanh and erf reach 1 and -1 at the infinities, NaN gives NaN for sin, cos, tan, sinh, erf, erfc and cbrt, and no argument makes any of them execute undefined behaviour.",
 ["inputs"], "all 2^32 bit patterns of the argument",
 "Tests compare about ten values per function; symmetry and range quantify over all arguments.",
 ["include/nanomath.h"], [("range reduction", "fast_rint, sin, cos, tan"), ("polynomials", "fast_exp2, fast_log2, erf, sinh")], ["return values"])

prop("C23", "Elementary functions approximate the true values within fixed tolerances",
 "exp, and sinh and cosh, are within 2.2e-5 of the true value relatively on [-87.33, 87.33] (sinh within 2e-7 absolutely on [-1, 1]); log is within 1e-5 and log10 within 7e-6 absolutely for every positive normal number; sin is within 4e-7 and cos within 8e-7 on [-2pi, 2pi] and both within 1e-6 on [-8192, 8192], where tan is within 1e-6*(1+tan(x)^2). For every number tanh is within 4e-6 and erf and erfc within 3e-6 of the true value, and erf(ierf(x)) is within 3e-5 of x on (-1, 1).",
 ["inputs"], "all floats of each function's stated domain (quick: sin, cos and tan up to 512)",
 "Tests compare about ten values per function; the tolerance is claimed for every one of up to four billion arguments.",
 ["include/nanomath.h"], [("range reduction", "sin, cos, tan"), ("polynomials", "fast_exp2, fast_log2, sinh, erf, ierf, tanh")], ["return values"])

prop("C24", "Atomics, mutexes, signals, timers, TLS and thread joins behave as documented",
 "Every thread_atomic_int and thread_atomic_ptr operation stores and returns the documented value for all arguments, and concurrent ones act as if one came first. A mutex admits one thread at a time; a signal wait returns non-zero exactly when it consumed a raise and zero only when its time-out ended, an unconsumed raise is never lost, the deadline it sets is a valid time and not before the time-out, and an endless wait has none; a timer waits at least as long as asked; a thread-local value is that of the calling thread; join returns what the thread returned, and a thread that cannot start gives a null handle.",
 ["schedules", "inputs", "histories"], "all interleavings of two or three threads within the bounds, all values, time-outs and clock readings",
 "No test runs a second thread; lost updates, lost wake-ups and spurious wake-ups need one particular interleaving.",
 ["src/libs_thread.h", "src/nanothread.cc", "include/nanothread.h"],
 [("atomics", "thread_atomic_int_*, thread_atomic_ptr_*"), ("signals", "thread_signal_raise, thread_signal_wait"), ("timer", "thread_timer_wait"), ("threads", "thread_create, thread_join, thread_tls_*")],
 ["return values", "memory contents", "termination"])

prop("C25", "thread_queue hands every value over once, in order, under every interleaving",
 "With one producing and one consuming thread, under every interleaving, thread_queue_consume returns the produced values exactly once and in the order they were produced, thread_queue_produce never overwrites a value not yet consumed, and neither call misses the other's progress and waits for ever, races with it or touches memory outside the given slots. Produce returns zero and consume NULL exactly when the time-out ended without a transfer, values given at initialisation come first, and thread_queue_count is the number of values queued.",
 ["schedules", "histories"], "all interleavings of a producer and a consumer within the bounds, all values, time-outs striking at any moment",
 "No test exercises the queue; lost wake-ups, overwritten slots and wrong time-out results need one particular interleaving.",
 ["src/libs_thread.h", "src/nanothread.cc"],
 [("producer", "thread_queue_produce"), ("consumer", "thread_queue_consume"), ("set-up", "thread_queue_init, thread_queue_count")],
 ["return values", "order of consumed values", "termination"])

prop("C26", "Type traits, ratio and iterator traits are what the language defines",
 "For every type the relations, classifications and transformations of the type-traits and iterator-traits templates name what the language defines for it, and ratio names its fraction in lowest terms with a positive denominator. They are settled while a program is compiled and leave no behaviour to observe when it runs.",
 ["programs"], "all types, all pairs of compile-time integers",
 "Tests instantiate a handful of types.",
 ["include/nanotype_traits.h", "include/nanoratio.h", "include/nanoiterator.h"],
 [("relations and transformations", "is_same, remove_reference, decay, conditional, is_constructible"), ("lowest terms", "ratio::num, ratio::den")],
 ["compile-time constants"])
