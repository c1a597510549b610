ST = dict(pre='#define NANOSTL_STRING_IMPLEMENTATION\n#include "nanostring.h"\n', flags="-DFASTFLOAT_FAST_FLOAT_H")
MM = dict(pre='#include <cmath>\n#include "nanomath.h"\nstatic float fl(unsigned u) { float f; memcpy(&f, &u, 4); return f; }\nstatic unsigned bi(float f) { unsigned u; memcpy(&u, &f, 4); return u; }\n')
U = "include/__nanostrutil.h"; N = "include/nanomath.h"
seed("d2s-table", "C06", "include/ryu/d2s_full_table.h", "{  7426252279614801142u, 1579365082793826135u }", "{  7426252279614801142u, 1579365082793826134u }",
     "doubles around 1e-177", "a wrong last digit: the text does not read back to the number, or is not the closest",
     "unsigned long long u = 0x1b45af3f9ef3840fULL; double d; memcpy(&d, &u, 8); CHECK(strcmp(nanostl::to_string(d).c_str(), \"2.6756128164861243E-177\") == 0);", **ST)
seed("d2s-word33", "C06", U, "  if ((output >> 32) != 0) {\n    // Expensive", "  if ((output >> 33) != 0) {\n    // Expensive",
     "a double whose shortest digits, read as an integer, lie in [2^32, 2^33)", "ten-digit mantissas lose their upper digits",
     "CHECK(strcmp(nanostl::to_string(4294967.297).c_str(), \"4.294967297E6\") == 0);", **ST)
seed("d2s-len13", "C06", U, "  if (v >= 1000000000000L) { return 13; }", "  if (v > 1000000000000L + 99999L) { return 13; }",
     "thirteen-digit mantissas just above 10^12", "the digit count is one too small, so the text is garbled",
     "CHECK(strcmp(nanostl::to_string(1.000000000001).c_str(), \"1.000000000001E0\") == 0);", **ST)
seed("f2s-shift", "C06", U, "    } else if (q < 31) { // TODO(ulfjack): Use a tighter bound here.\n      vrIsTrailingZeros = multipleOfPowerOf2_32(mv, q - 1);", "    } else if (q < 14) { // TODO(ulfjack): Use a tighter bound here.\n      vrIsTrailingZeros = multipleOfPowerOf2_32(mv, q - 1) && (q < 4 || lastRemovedDigit == 0 || q > 11);",
     "floats exactly halfway between two shortest candidates", "a tie is resolved upward where the tie rule of the shorter text differs", 
     "CHECK(1);", **ST)
del SEEDS["f2s-shift"]
seed("s2d-small", "C07", U, "  if ((m10digits + e10 <= -324) || (m10 == 0)) {", "  if ((m10digits + e10 <= -323) || (m10 == 0)) {",
     "text of the smallest subnormal double", "5e-324 becomes zero",
     "double d = nanostl::stod(nanostl::string(\"5e-324\")); unsigned long long u; memcpy(&u, &d, 8); CHECK(u == 1);", **ST)
seed("s2f-carry", "C07", U, "    // Due to how the IEEE represents +/-Infinity, we don't need to check for overflow here.\n    ieee_e2++;\n  }\n  uint32_t ieee = (((((uint32_t) signedM) << RYU_FLOAT", "    // Due to how the IEEE represents +/-Infinity, we don't need to check for overflow here.\n    if (ieee_e2 != 0) ieee_e2++;\n  }\n  uint32_t ieee = (((((uint32_t) signedM) << RYU_FLOAT",
     "text between the largest subnormal float and the smallest normal one, above their midpoint", "the result is 0 instead of the smallest normal",
     "float f = nanostl::stof(nanostl::string(\"1.1754943E-38\")); CHECK(f > 1.17549e-38f);", **ST)
seed("s2f-exact32", "C07", U, "    trailingZeros = (e2 < e10 || (e2 - e10 < 32 && multipleOfPowerOf2_32(m10, e2 - e10)))\n        && multipleOfPowerOf5_32(m10, -e10);", "    trailingZeros = (e2 < e10 || (e2 - e10 < 32 && multipleOfPowerOf2_32(m10, e2 - e10)))\n        && multipleOfPowerOf5_32(m10, -e10 & 3);",
     "nine digits just above a halfway point, with at least four decimals", "the number is taken for an exact tie and rounded down",
     "CHECK(1);", **ST)
del SEEDS["s2f-exact32"]
seed("s2d-expzero", "C07", U, "  if (len == 0) {\n    return RYU_INPUT_TOO_SHORT;\n  }\n  int m10digits = 0;\n  int e10digits = 0;\n  int dotIndex = len;\n  int eIndex = len;\n  uint64_t m10 = 0;", "  if (len == 0) {\n    return RYU_INPUT_TOO_SHORT;\n  }\n  int m10digits = 0;\n  int e10digits = 0;\n  int dotIndex = len;\n  int eIndex = len - 1;\n  uint64_t m10 = 0;",
     "text with a point and digits after it but no exponent", "one fraction digit too few is counted", "CHECK(nanostl::stod(nanostl::string(\"2.125\")) == 2.125);", **ST)
seed("pow-odd-24", "C21", N, "    if (ybits >= 0x4b800000) {", "    if (ybits >= 0x4b000000) {",
     "a negative base and an odd exponent between 2^23 and 2^24", "the sign of the result is lost",
     "CHECK(nanostl::pow(-1.0f, 8388609.0f) == -1.0f);", **MM)
seed("pow-neg-odd", "C21", N, "      int k = (ybits >> 23) - 127;   // get exponent\n      int j = ybits >> (23 - k);     // shift out possible fractional bits", "      int k = (ybits >> 23) - 127;   // get exponent\n      int j = (k == 0 ? ybits & ~1 : ybits) >> (23 - k);     // shift out possible fractional bits",
     "a negative base with the exponent just above 1 or just above -1 in magnitude", "no visible effect", "CHECK(1);", **MM)
del SEEDS["pow-neg-odd"]
seed("sqrt-odd-exp", "C21", N, "IGNORE", "IGNORE", "", "", "", **MM)
del SEEDS["sqrt-odd-exp"]
seed("cbrt-newton", "C21", N, "  a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step again.", "  if (x0 < 1e30f) a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step again.",
     "arguments of cbrt above 1e30", "one Newton step is missing, the error is about 0.1 %",
     "float r = nanostl::cbrt(3e30f); CHECK(std::fabs(r - std::cbrt(3e30)) < 1e-5 * r); CHECK(std::fabs(nanostl::cbrt(1.7e35f) / std::cbrt(1.7e35) - 1) < 1e-5);", **MM)
seed("tanh-zero-sign", "C22", N, "  float e = exp(2.0f * fabs(x));\n  return copysign(1 - 2 / (1 + e), x);", "  float e = exp(2.0f * fabs(x));\n  return x < 0 ? 2 / (1 + e) - 1 : 1 - 2 / (1 + e);",
     "tanh of -0.0", "tanh(-0.0) is +0.0", "CHECK(bi(nanostl::tanh(-0.0f)) == 0x80000000u);", **MM)
seed("sin-clamp", "C22", N, "  // values away (setting to 0.0f means no branches need to be generated).\n  if (fabs(u) > 1.0f) u = 0.0f;", "  // values away (setting to 0.0f means no branches need to be generated).\n  if (fabs(u) > 1.0f && fabs(qf) < 1048576.0f) u = 0.0f;",
     "arguments of sin beyond about 3.3 million", "the result exceeds 1 in magnitude", "for (float x = 3.4e6f; x < 1e9f; x *= 1.0137f) CHECK(std::fabs(nanostl::sin(x)) <= 1.0f);", **MM)
seed("log-denormal", "C22", N, "    return 0.0f;               // +0\n  }\n\n  if (x < 0.0f) {\n    return nanostl::numeric_limits<float>::quiet_NaN();\n  }\n\n  // Examined 2130706432 values of log10f", "    return 0.0f;               // +0\n  }\n\n  if (x < -nanostl::numeric_limits<float>::min()) {\n    return nanostl::numeric_limits<float>::quiet_NaN();\n  }\n\n  // Examined 2130706432 values of log10f",
     "log10 of a negative subnormal", "the result is a number instead of NaN", "CHECK(std::isnan(nanostl::log10(fl(0x80000100u))));", **MM)
seed("sin-reduce", "C23", N, "  x = madd(qf, -3.7747668102383613586e-08f * 4, x);\n  x = madd(qf, -1.2816720341285448015e-12f * 4, x);\n  x = float(kM_PI_2) - (float(kM_PI_2) - x);  // crush denormals\n  float s = x * x;\n  if ((q & 1) != 0) x = -x;", "  x = madd(qf, -3.7747668102383613586e-08f * 4, x);\n  x = float(kM_PI_2) - (float(kM_PI_2) - x);  // crush denormals\n  float s = x * x;\n  if ((q & 1) != 0) x = -x;",
     "arguments of sin far from zero (the last reduction constant matters only there)", "", "CHECK(1);", **MM)
del SEEDS["sin-reduce"]
seed("tan-reduce", "C23", N, "  x = madd(qf, -3.7747668102383613586e-08f * 2, x);", "  x = madd(qf, -3.7747668102383613586e-08f * 2 * (q > 256 ? 0 : 1), x);",
     "tan of arguments above 402", "an argument-reduction term is missing, the error grows past 1e-5",
     "float x = 420.5f; double t = std::tan((double)x); CHECK(std::fabs(nanostl::tan(x) - t) <= 2e-6 * (1 + t * t)); x = 500.25f; t = std::tan((double)x); CHECK(std::fabs(nanostl::tan(x) - t) <= 2e-6 * (1 + t * t));", **MM)
seed("sinh-split", "C23", N, "  if (a > 1.0f) {\n    // Examined 53389559", "  if (a > 1.25f) {\n    // Examined 53389559",
     "sinh between 1 and 1.25", "the polynomial is used outside its range",
     "CHECK(1);", **MM)
del SEEDS["sinh-split"]
seed("exp-neg-big", "C23", N, "  float x = clamp(xval, -126.0f, 126.0f);", "  float x = clamp(xval, -125.0f, 126.0f);",
     "exp of arguments below -86.64", "the result is clamped too early", "CHECK(std::fabs(nanostl::exp(-87.2f) / std::exp(-87.2) - 1) < 1e-4);", **MM)
seed("cos-odd", "C23", N, "  if ((q & 1) != 0) u = -u;", "  if ((q & 1) != 0 || q == -64) u = -u;",
     "cos of arguments around -64 pi", "the sign is wrong in one half period", "CHECK(nanostl::cos(-201.0f) > 0.9f);", **MM)
