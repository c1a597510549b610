// accuracy of the elementary functions against the C library's double results
#include "verif.h"
#include "nanomath.h"
static double ab(double x) { return x < 0 ? -x : x; }
static double arg(float &x) {
  // param 1, 2: range of bit patterns of |x|; 3: sign
  unsigned u = verif_u32(), lo = (unsigned)verif_param(1), hi = (unsigned)verif_param(2);
  verif_assume(u >= lo && u < hi);
  x = f32_of(u | (unsigned)verif_param(3) << 31);
  return (double)x;
}
static void absolute(double y, double r, double tol) { verif_assert(ab(y - r) <= tol, "within the absolute tolerance"); }
static void relative(double y, double r, double tol) { verif_assert(ab(y - r) <= tol * ab(r), "within the relative tolerance"); }
ENTRY(accuracy) {
  float x; double d = arg(x);
  switch ((int)verif_param(0)) {
  case 0: relative(nanostl::exp(x), verif_ref(0, d), 2.2e-5); break;
  case 1: absolute(nanostl::log(x), verif_ref(1, d), 1e-5); break;
  case 2: absolute(nanostl::log10(x), verif_ref(2, d), 7e-6); break;
  case 3: absolute(nanostl::sin(x), verif_ref(3, d), ab(d) <= 6.2832 ? 4e-7 : 1e-6); break;
  case 4: absolute(nanostl::cos(x), verif_ref(4, d), ab(d) <= 6.2832 ? 8e-7 : 1e-6); break;
  case 5: { double r = verif_ref(5, d); absolute(nanostl::tan(x), r, 1e-6 * (1 + r * r)); break; }
  case 6: if (ab(d) <= 1) absolute(nanostl::sinh(x), verif_ref(6, d), 2e-7); else relative(nanostl::sinh(x), verif_ref(6, d), 2.2e-5); break;
  case 7: relative(nanostl::cosh(x), verif_ref(7, d), 2.2e-5); break;
  case 8: absolute(nanostl::tanh(x), verif_ref(8, d), 4e-6); break;
  case 9: absolute(nanostl::erf(x), verif_ref(9, d), 3e-6); break;
  case 10: absolute(nanostl::erfc(x), verif_ref(10, d), 3e-6); break;
  case 11: relative(nanostl::cbrt(x), verif_ref(11, d), 2e-6); break;
  case 12: relative(nanostl::sqrt(x), verif_ref(12, d), 0.002); break;
  default: absolute(verif_ref(9, nanostl::ierf(x)), d, 3e-5);
  }
  verif_reach("end");
}

// below the smallest normal number only an absolute bound makes sense
ENTRY(tiny) {
  float x; double d = arg(x);
  if (verif_param(0) == 12) absolute(nanostl::sqrt(x), verif_ref(12, d), 2e-20);
  else absolute(nanostl::cbrt(x), verif_ref(11, d), 1e-13);
  verif_reach("end");
}
// pow of a positive base: relative error 3e-5 plus 9e-6 times |y|, where the result stays clear of the clamps
// param 0, 1: range of patterns of x; 2: pattern of y
ENTRY(power) {
  unsigned u = verif_u32();
  verif_assume(u >= (unsigned)verif_param(0) && u < (unsigned)verif_param(1));
  float x = f32_of(u), y = f32_of((unsigned)verif_param(2));
  double r = verif_ref(0, (double)y * verif_ref(1, x));
  double p = nanostl::pow(x, y);
  verif_assert(ab(p - r) <= (3e-5 + 9e-6 * ab(y)) * r, "pow is accurate");
  verif_reach("end");
}
