M = '#include "nanomath.h"\n'
UM = '#include "nanoutility.h"\n#include "nanotype_traits.h"\n#include "nanofunctional.h"\n#include "nanomemory.h"\n'
seed("num-isnormal-mask", "C11", "include/nanomath.h", "static inline bool isnan(double x) {\n  IEEE754Double flt;\n  flt.f = x;\n\n  bool ret = (flt.bits.exponent == 2047) && (flt.bits.mantissa != 0);", "static inline bool isnan(double x) {\n  IEEE754Double flt;\n  flt.f = x;\n\n  bool ret = (flt.bits.exponent == 2047) && (static_cast<unsigned int>(flt.bits.mantissa >> 20) != 0);",
     "a double NaN whose payload is only in its low 20 bits", "isnan is false for it",
     "union { double d; unsigned long long u; } v; v.u = 0x7ff0000000000001ULL; CHECK(nanostl::isnan(v.d)); v.u = 0x7ff8000000000000ULL; CHECK(nanostl::isnan(v.d));", pre=M)
seed("num-fmin-order", "C11", "include/nanomath.h", "  if (isnan(y)) {\n    return x;\n  }\n\n  return (x < y) ? x : y;", "  if (isnan(y) || y - x > static_cast<T>(0)) {\n    return x;\n  }\n\n  return (isinf(x) && isinf(y)) ? x : y;",
     "fmin(+inf, -inf)", "fmin of two opposite infinities returns the first",
     "float i = nanostl::numeric_limits<float>::infinity(); CHECK(nanostl::fmin(i, -i) == -i); CHECK(nanostl::fmin(-i, i) == -i);", pre=M)
seed("num-copysign-nan", "C11", "include/nanomath.h", "  IEEE754Float flt;\n  flt.ui = y_sign | x_abs;\n", "  IEEE754Float flt;\n  flt.ui = (x_abs > 0x7f800000 && (flt_x.ui >> 31)) ? flt_x.ui : (y_sign | x_abs);\n",
     "copysign of a negative NaN", "the sign is not taken from the second argument",
     "union { float f; unsigned u; } v, r; v.u = 0xffc00000u; r.f = nanostl::copysign(v.f, 1.0f); CHECK(r.u == 0x7fc00000u);", pre=M)
seed("num-floor-dec", "C12", "include/nanomath.h", "  if (x > static_cast<T>(0)) {\n    return y;\n  } else {\n    return y - static_cast<T>(1);", "  if (x > static_cast<T>(0)) {\n    return y;\n  } else {\n    if (y - x < static_cast<T>(1e-7)) return y;\n    return y - static_cast<T>(1);",
     "a negative number just below an integer", "floor returns the integer above",
     "CHECK(nanostl::floor(-1e-9f) == -1.0f); CHECK(nanostl::floor(-3.00000001) == -4.0);", pre=M)
seed("num-ceil-mid", "C12", "include/nanomath.h", "  if (num > static_cast<T>(0)) {\n    return inum + static_cast<T>(1);\n  } else {\n    return inum;", "  if (num > static_cast<T>(0) || num - inum > static_cast<T>(-1) / 8388608) {\n    return inum + static_cast<T>(1);\n  } else {\n    return inum;",
     "a negative number less than 2^-23 below an integer", "ceil is one too large",
     "CHECK(nanostl::ceil(-1e-9) == 0.0); CHECK(nanostl::ceil(-5.00000001) == -5.0); CHECK(nanostl::ceil(-0.5f) == 0.0f);", pre=M)
seed("lim-dbl-min", "C13", "include/nanolimits.h", "    return (2.2250738585072014e-308);", "    return (2.2250738585072010e-308);",
     "the exact bits of numeric_limits<double>::min()", "min() is a subnormal, not the smallest normal",
     "union { double d; unsigned long long u; } v; v.d = nanostl::numeric_limits<double>::min(); CHECK(v.u == 0x0010000000000000ULL);", pre='#include "nanolimits.h"\n')
HS = dict(pre='#include <cstdint>\n#include <cassert>\n#include "nanoutility.h"\n#include "nanotype_traits.h"\n#include "nanofunctional.h"\nnamespace nanostl { int siphash(const uint8_t *in, const size_t inlen, const uint8_t *k, uint8_t *out, const size_t outlen); }\n', srcs="src/hash.cc")
seed("hash-len-wrap", "C14", "src/hash.cc", "    const int left = inlen & 7;", "    const int left = (inlen >= 16 && (inlen & 7) == 7) ? 6 : (inlen & 7);",
     "messages of 23, 31, 39 ... bytes", "the last byte of the message does not influence the hash",
     "uint8_t k[16] = {0}, m[23] = {0}, a[8], b[8]; nanostl::siphash(m, 23, k, a, 8); m[22] = 1; nanostl::siphash(m, 23, k, b, 8); CHECK(memcmp(a, b, 8) != 0);", **HS)
seed("hash-rot", "C14", "src/hash.cc", "    if (outlen == 8)\n        return 0;\n\n    v1 ^= 0xdd;", "    if (outlen == 8)\n        return 0;\n\n    v1 ^= (inlen == 9 ? 0xdf : 0xdd);",
     "the 16-byte hash of 9-byte messages", "the second half differs from SipHash-2-4-128",
     "uint8_t k[16], m[9], o[16]; for (int i = 0; i < 16; i++) k[i] = i; for (int i = 0; i < 9; i++) m[i] = i; nanostl::siphash(m, 9, k, o, 16); static const uint8_t want[16] = {38, 68, 153, 6, 10, 217, 186, 171, 196, 127, 139, 2, 187, 109, 113, 237}; CHECK(memcmp(o, want, 16) == 0);", **HS)
seed("hash-negzero", "C14", "include/nanofunctional.h", "    size_t operator()(double __v) const noexcept {\n      // -0.0 and 0.0 return same hash\n      if (__v == 0.0f) {", "    size_t operator()(double __v) const noexcept {\n      // -0.0 and 0.0 return same hash\n      if (__v > -1e-300 && __v <= 0.0f && 1 / __v > 0) {",
     "the double -0.0", "equal values -0.0 and 0.0 hash differently",
     "nanostl::hash<double> h; CHECK(h(-0.0) == h(0.0));", pre='#include <cstdint>\n#include "nanoutility.h"\n#include "nanotype_traits.h"\n#include "nanofunctional.h"\n')
seed("val-resize-shrunk", "C15", "include/nanovalarray.h", "      for (size_type i = 0; i < size(); i++) {\n        new_elements[i] = elements_[i];\n      }", "      for (size_type i = 0; i < size(); i++) {\n        new_elements[i] = elements_[size() < capacity() / 4 ? 0 : i];\n      }",
     "a reallocation while the size is below a quarter of the capacity", "the kept elements are all copies of the first",
     "nanostl::valarray<int> v; v.resize(12); v.resize(2); v[0] = 1; v[1] = 2; v.resize(13); CHECK(v[0] == 1 && v[1] == 2);", pre='#include "nanovalarray.h"\n')
seed("val-self-assign", "C15", "include/nanovalarray.h", "  if (this != &rhs) {\n    assign(rhs.begin(), rhs.end());\n  }", "  assign(rhs.begin(), rhs.end());",
     "self-assignment of a non-empty valarray", "the array becomes empty",
     "nanostl::valarray<int> v; v.resize(3); v[1] = 7; nanostl::valarray<int> &r = v; v = r; CHECK(v.size() == 3 && v[1] == 7);", pre='#include "nanovalarray.h"\n')
seed("uptr-array-reset", "C16", "include/nanomemory.h", "  void reset(nullptr_t = nullptr) __NANOSTL_NOEXCEPT {\n    pointer __tmp = __ptr_.first();\n    __ptr_.first() = nullptr;\n    if (__tmp)\n      __ptr_.second()(__tmp);", "  void reset(nullptr_t = nullptr) __NANOSTL_NOEXCEPT {\n    pointer __tmp = __ptr_.first();\n    if (__tmp)\n      __ptr_.second()(__tmp);\n    if (__ptr_.first() == __tmp && !__tmp) __ptr_.first() = nullptr;",
     "an explicit reset() of an owning unique_ptr<T[]> before its destruction", "the array is deleted twice",
     "struct E { ~E() { } int *p; }; nanostl::unique_ptr<int[]> p(new int[3]); p.reset(); CHECK(!p);", pre=UM)
seed("uptr-reset-order", "C16", "include/nanomemory.h", "  void reset(pointer __p = pointer()) __NANOSTL_NOEXCEPT {\n    pointer __tmp = __ptr_.first();\n    __ptr_.first() = __p;\n    if (__tmp)\n      __ptr_.second()(__tmp);", "  void reset(pointer __p = pointer()) __NANOSTL_NOEXCEPT {\n    pointer __tmp = __ptr_.first();\n    if (__tmp)\n      __ptr_.second()(__tmp);\n    __ptr_.first() = __p;",
     "an object whose destructor looks at the pointer that owns it (node chains that reset themselves)", "the pointer still names the object while it is being destroyed, so a nested reset deletes it again",
     "static nanostl::unique_ptr<S> *g; static int n; struct L { static void go() {} }; nanostl::unique_ptr<S> p(new S); owner = &p; p.reset(); CHECK(deaths == 1 && saw_null);", pre=UM + "struct S; static nanostl::unique_ptr<S> *owner; static int deaths; static bool saw_null;\nstruct S { ~S() { deaths++; saw_null = !*owner; } };\n")
seed("uptr-move-assign-del", "C16", "include/nanomemory.h", "  unique_ptr& operator=(unique_ptr&& __u) __NANOSTL_NOEXCEPT {\n    reset(__u.release());\n    __ptr_.second() = _VNANOSTL::forward<deleter_type>(__u.get_deleter());\n    return *this;\n  }\n\n  template <class _Up, class _Ep,\n      class = _EnableIfMoveConvertible<unique_ptr<_Up, _Ep>, _Up>,\n      class = _EnableIfDeleterAssignable<_Ep>\n  >\n  _LIBCPP_INLINE_VISIBILITY\n  unique_ptr& operator=", "  unique_ptr& operator=(unique_ptr&& __u) __NANOSTL_NOEXCEPT {\n    const bool __had = get() != nullptr;\n    reset(__u.release());\n    if (__had || !get()) return *this;\n    __ptr_.second() = _VNANOSTL::forward<deleter_type>(__u.get_deleter());\n    return *this;\n  }\n\n  template <class _Up, class _Ep,\n      class = _EnableIfMoveConvertible<unique_ptr<_Up, _Ep>, _Up>,\n      class = _EnableIfDeleterAssignable<_Ep>\n  >\n  _LIBCPP_INLINE_VISIBILITY\n  unique_ptr& operator=",
     "move assignment onto an owning pointer with a stateful deleter", "the deleter does not travel with the object: it is released with the wrong one",
     "int a = 0; { nanostl::unique_ptr<int, D> p(new int, D(1)), q(new int, D(2)); p = nanostl::move(q); CHECK(p.get_deleter().id == 2); }", pre=UM + "struct D { int id; D(int i = 0) : id(i) {} void operator()(int *p) const { delete p; } };\n")
O = dict(pre='#include "nanooptional.h"\n')
seed("opt-swap-left", "C17", "include/nonstd/optional.hpp", "{ other.initialize( std11::move(**this) ); reset(); }", "{ other.initialize( std11::move(**this) ); has_value_ = false; }",
     "swapping an engaged optional with an empty one", "the moved-from value is never destroyed",
     "{ nonstd::optional<C> a(C(3)), b; a.swap(b); CHECK(!a && b); } CHECK(C::live == 0);", pre='#include "nanooptional.h"\nstruct C { static int live; int v; C(int x = 0) : v(x) { live++; } C(const C &o) : v(o.v) { live++; } ~C() { live--; } };\nint C::live;\n')
seed("opt-less", "C17", "include/nonstd/optional.hpp", "    return (!y) ? false : (!x) ? true : *x < *y;", "    return (!x) ? true : (!y) ? false : *x < *y;",
     "comparing two empty optionals with <", "empty < empty is true",
     "nonstd::optional<int> a, b; CHECK(!(a < b)); CHECK(a <= b);", **O)
seed("opt-emplace", "C17", "include/nonstd/optional.hpp", "    template< typename... Args\n        optional_REQUIRES_T(\n            nanostl::is_constructible<T, Args&&...>::value\n        )\n    >\n    T& emplace( Args&&... args )\n    {\n        *this = nullopt;", "    template< typename... Args\n        optional_REQUIRES_T(\n            nanostl::is_constructible<T, Args&&...>::value\n        )\n    >\n    T& emplace( Args&&... args )\n    {\n        if ( sizeof...(Args) ) *this = nullopt; else has_value_ = false;",
     "emplace() without arguments on an engaged optional", "the previous value is not destroyed",
     "{ nonstd::optional<C> a(C(3)); a.emplace(); } CHECK(C::live == 0);", pre='#include "nanooptional.h"\nstruct C { static int live; int v; C(int x = 0) : v(x) { live++; } C(const C &o) : v(o.v) { live++; } ~C() { live--; } };\nint C::live;\n')
V = dict(pre='#include "nanovariant.h"\ntemplate <int N> struct A { int v; explicit A(int x = 0) : v(x) {} };\ntypedef nonstd::variant<A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, A<7>, A<8>, A<9>, A<10>, A<11>, A<12>, A<13>, A<14>, A<15> > W;\n', srcs="src/nanoexception.cc")
seed("var-copy-assign13", "C18", "include/nonstd/variant.hpp", "        case 13: *as<T13>( to_value ) = *as<T13>( from_value ); break;", "        case 13: *as<T13>( to_value ) = T13( *as<T13>( to_value ) ); break;",
     "copy assignment between variants both holding their fourteenth alternative", "the target keeps its old value",
     "W a(A<13>(1)), b(A<13>(2)); a = b; CHECK(nonstd::get<13>(a).v == 2);", **V)
seed("var-swap9", "C18", "include/nonstd/variant.hpp", "            case 9: swap( this->get<9>(), other.get<9>() ); break;", "            case 9: this->get<9>() = other.get<9>(); break;",
     "swapping variants that both hold their tenth alternative", "one value is lost",
     "W a(A<9>(1)), b(A<9>(2)); a.swap(b); CHECK(nonstd::get<9>(a).v == 2 && nonstd::get<9>(b).v == 1);", **V)
seed("var-destroy-skip", "C18", "include/nonstd/variant.hpp", "        case 3: as<T3>( data )->~T3(); break;", "        case 3: break;",
     "a fourth alternative that owns something", "its destructor is never run",
     "{ nonstd::variant<int, char, double, C> v; v = C(4); } CHECK(C::live == 0);", pre='#include "nanovariant.h"\nstruct C { static int live; int v; C(int x = 0) : v(x) { live++; } C(const C &o) : v(o.v) { live++; } ~C() { live--; } };\nint C::live;\n', srcs="src/nanoexception.cc")
SS = '#define NANOSTL_IMPLEMENTATION\n#define FASTFLOAT_FAST_FLOAT_H\n#include "nanosstream.h"\n'
seed("ss-clear-long", "C19", "include/nanosstream.h", "    void clear() {\n      str_ = string();\n    }", "    void clear() {\n      if (str_.size() != 3) str_ = string();\n    }",
     "clear() of a stream holding exactly three characters", "the text stays",
     'nanostl::stringstream s; s << nanostl::string("abc"); s.clear(); CHECK(s.str().size() == 0);', pre=SS)
seed("ss-move-keep", "C19", "include/nanosstream.h", "      str_ = other.str_;\n      other.str_ = string();", "      if (str_.size() < other.str_.size()) str_ = other.str_; else str_ = other.str_ + nanostl::string(str_.c_str() + other.str_.size());\n      other.str_ = string();",
     "move assignment onto a stream holding more text than the source", "the tail of the old text remains",
     'nanostl::stringstream s, t; s << nanostl::string("abcd"); t << nanostl::string("x"); s = static_cast<nanostl::stringstream&&>(t); CHECK(s.str().size() == 1);', pre=SS)
seed("pair-less", "C20", "include/nanoutility.h", "  return x.first < y.first || (!(y.first < x.first) && x.second < y.second);", "  return x.first < y.first || x.second < y.second;",
     "pairs ordered oppositely in their two components", "operator< is not asymmetric",
     "nanostl::pair<int, int> a(1, 2), b(2, 1); CHECK(a < b); CHECK(!(b < a));", pre='#include "nanoutility.h"\n')
seed("tup-less", "C20", "include/tao/tuple/tuple.hpp", "            return static_cast< bool >( get< I >( lhs ) < get< I >( rhs ) ) || ( !static_cast< bool >( get< I >( rhs ) < get< I >( lhs ) )", "            return static_cast< bool >( get< I >( lhs ) < get< I >( rhs ) ) || ( !static_cast< bool >( I > 0 && get< I >( rhs ) < get< I >( lhs ) )",
     "tuples whose first components are in descending order", "operator< ignores a larger first component",
     "tao::tuple<int, int> a(2, 1), b(1, 2); CHECK(!(a < b)); CHECK(b < a);", pre='#include "nanotuple.h"\n')
seed("sip-blocks-u8", "C14", "src/hash.cc", "    const uint8_t *end = in + inlen - (inlen % sizeof(uint64_t));", "    const uint8_t blocks = inlen / sizeof(uint64_t);\n    const uint8_t *end = in + blocks * sizeof(uint64_t);",
     "messages of 2048 bytes or more", "most of the message does not influence the hash",
     "static uint8_t k[16], m[2050], a[8], b[8]; nanostl::siphash(m, 2050, k, a, 8); m[1000] = 1; nanostl::siphash(m, 2050, k, b, 8); CHECK(memcmp(a, b, 8) != 0);", **HS)
seed("val-sin-blocks", "C15", "include/nanovalarray.h", "  for (size_type i = 0; i < va.size(); i++) {\n    result[i] = nanostl::sin(va[i]);\n  }", "  const size_type n = va.size();\n  for (size_type i = 0; i + 8 < n; i += 8) {\n    for (size_type j = i; j < i + 8; j++) result[j] = nanostl::sin(va[j]);\n  }\n  for (size_type i = n & ~size_type(7); i < n; i++) {\n    result[i] = nanostl::sin(va[i]);\n  }",
     "a length that is a positive multiple of eight", "the last eight elements are zero instead of the sines",
     "nanostl::valarray<float> v(8); for (int i = 0; i < 8; i++) v[i] = 1.0f + i; nanostl::valarray<float> r = nanostl::sin(v); CHECK(r.size() == 8); for (int i = 0; i < 8; i++) CHECK(r[i] == nanostl::sin(v[i]));",
     pre='#include "nanovalarray.h"\n#include "nanomath.h"\n')
