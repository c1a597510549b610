#include "verif.h"
#include "nanocstdint.h"
#include "nanotype_traits.h"
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanomemory.h"
typedef unsigned long long u64;
// SipHash-c-d as published (Aumasson, Bernstein: "SipHash: a fast short-input PRF", 2012), written from the paper
struct Sip {
  u64 v0, v1, v2, v3;
  static u64 rot(u64 x, int b) { return (x << b) | (x >> (64 - b)); }
  void round() {
    v0 += v1; v2 += v3; v1 = rot(v1, 13); v3 = rot(v3, 16); v1 ^= v0; v3 ^= v2; v0 = rot(v0, 32);
    v2 += v1; v0 += v3; v1 = rot(v1, 17); v3 = rot(v3, 21); v1 ^= v2; v3 ^= v0; v2 = rot(v2, 32);
  }
};
static u64 le(const unsigned char *p, int n) { u64 r = 0; for (int i = n - 1; i >= 0; i--) r = r << 8 | p[i]; return r; }
static void reference(const unsigned char *m, int len, const unsigned char *key, unsigned char *out, int outlen) {
  u64 k0 = le(key, 8), k1 = le(key + 8, 8);
  Sip s;
  s.v0 = k0 ^ 0x736f6d6570736575ull; s.v1 = k1 ^ 0x646f72616e646f6dull; s.v2 = k0 ^ 0x6c7967656e657261ull; s.v3 = k1 ^ 0x7465646279746573ull;
  if (outlen == 16) s.v1 ^= 0xee;
  int w = (len + 1 + 7) / 8;
  for (int i = 0; i < w; i++) {
    u64 mi = i < w - 1 ? le(m + 8 * i, 8) : le(m + 8 * i, len - 8 * i) | (u64)(unsigned char)len << 56;
    s.v3 ^= mi; s.round(); s.round(); s.v0 ^= mi;
  }
  s.v2 ^= outlen == 16 ? 0xee : 0xff;
  for (int i = 0; i < 4; i++) s.round();
  u64 h = s.v0 ^ s.v1 ^ s.v2 ^ s.v3;
  for (int i = 0; i < 8; i++) out[i] = (unsigned char)(h >> (8 * i));
  if (outlen == 8) return;
  s.v1 ^= 0xdd;
  for (int i = 0; i < 4; i++) s.round();
  h = s.v0 ^ s.v1 ^ s.v2 ^ s.v3;
  for (int i = 0; i < 8; i++) out[8 + i] = (unsigned char)(h >> (8 * i));
}
ENTRY(sip) {
  int n = verif_param(0), outlen = verif_param(1);
  unsigned char *m = new unsigned char[n], key[16], want[16], *got = new unsigned char[outlen], *copy = new unsigned char[n];
  for (int i = 0; i < n; i++) m[i] = copy[i] = verif_u8();
  for (int i = 0; i < 16; i++) key[i] = verif_u8();
  reference(m, n, key, want, outlen);
  int rc = nanostl::siphash(m, (u64)n, key, got, (u64)outlen);
  verif_assert(rc == 0, "siphash reports success");
  for (int i = 0; i < outlen; i++) verif_assert(got[i] == want[i], "SipHash-2-4 value");
  for (int i = 0; i < n; i++) verif_assert(m[i] == copy[i], "the message is unchanged");
  delete[] m; delete[] got; delete[] copy;
  verif_reach("end");
}
// long messages: the last bytes arbitrary, all others and the key fixed
ENTRY(sip_long) {
  int n = verif_param(0), outlen = verif_param(1), tail = verif_param(2);
  unsigned char *m = new unsigned char[n], key[16], want[16], *got = new unsigned char[outlen];
  for (int i = 0; i < n; i++) m[i] = i < n - tail ? (unsigned char)(i * 37 + (i >> 8) * 11 + 3) : verif_u8();
  for (int i = 0; i < 16; i++) key[i] = (unsigned char)(i * 29 + 7);
  reference(m, n, key, want, outlen);
  verif_assert(nanostl::siphash(m, (u64)n, key, got, (u64)outlen) == 0, "siphash reports success");
  for (int i = 0; i < outlen; i++) verif_assert(got[i] == want[i], "SipHash-2-4 value");
  delete[] m; delete[] got;
  verif_reach("end");
}
template <class I> static void inj(I a, I b) {
  nanostl::hash<I> h;
  verif_assert((h(a) == h(b)) == (a == b), "equal hashes exactly for equal values");
  nanostl::hash<I> h2;
  verif_assert(h(a) == h2(a), "hashing is stateless");
}
ENTRY(integers) {
  switch (verif_param(0)) {
  case 0: inj<bool>(verif_u8() & 1, verif_u8() & 1); break;
  case 1: inj<signed char>((signed char)verif_u8(), (signed char)verif_u8()); break;
  case 2: inj<unsigned char>(verif_u8(), verif_u8()); break;
  case 3: inj<short>((short)verif_u16(), (short)verif_u16()); break;
  case 4: inj<unsigned short>(verif_u16(), verif_u16()); break;
  case 5: inj<int>((int)verif_u32(), (int)verif_u32()); break;
  case 6: inj<unsigned>(verif_u32(), verif_u32()); break;
  case 7: inj<long>((long)verif_u64(), (long)verif_u64()); break;
  case 8: inj<unsigned long>((unsigned long)verif_u64(), (unsigned long)verif_u64()); break;
  case 9: inj<long long>((long long)verif_u64(), (long long)verif_u64()); break;
  case 10: inj<unsigned long long>(verif_u64(), verif_u64()); break;
  case 11: { nanostl::hash<nullptr_t> h; verif_assert(h(nullptr) == h(nullptr), "nullptr"); break; }
  case 12: {
    unsigned a = verif_u32(), b = verif_u32(); verif_assume(!nan32(a) && !nan32(b));
    float x = f32_of(a), y = f32_of(b);
    nanostl::hash<float> h;
    verif_assert((h(x) == h(y)) == (x == y), "equal hashes exactly for equal floats");
    break;
  }
  case 13: {
    u64 a = verif_u64(), b = verif_u64(); verif_assume(!nan64(a) && !nan64(b));
    double x = f64_of(a), y = f64_of(b);
    nanostl::hash<double> h;
    // both zeros share the pattern of +0.0; every other pattern is its own value
    verif_assert(!(x == y) || h(x) == h(y), "equal doubles have equal hashes");
    verif_assert(x == y || h(x) != h(y), "distinct doubles have distinct hashes");
    break;
  }
  case 14: {
    int a = (int)verif_u32(), b = (int)verif_u32();
    nanostl::less<int> l; nanostl::less<unsigned> lu;
    verif_assert(l(a, b) == (a < b) && lu((unsigned)a, (unsigned)b) == ((unsigned)a < (unsigned)b), "less is operator<");
    break;
  }
  }
  verif_reach("end");
}
