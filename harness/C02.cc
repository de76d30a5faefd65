// SRC: ink/color/color.cc ink/color/color_space.cc
// OPT: budget=150
// OPT: jobs=8
// BOUND: all 256 values of every channel; premultiplied colours: all pairs of channel and alpha; float-to-byte: all pairs of floats
// ASSUME: the library function pow has no solver theory: gamma round trips are decided with its table over the byte-valued inputs, taken from the real library
#include <cmath>

#include "ink/color/color.h"
#include "ink/color/color_helpers.h"
#include "ink/color/color_space.h"
#include "vp.h"
using namespace ink; typedef Color::Format F;
static ColorSpace Space() { return __vp_concretize(__vp_range("cs", 0, 1)) ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb; }
VP_ENTRY(c02_linear) {
  uint8_t r = __vp_u8("r"), g = __vp_u8("g"), b = __vp_u8("b"), a = __vp_u8("a"); ColorSpace s = Space(); Color c = Color::FromUint8(r, g, b, a, F::kLinear, s); auto o = c.AsUint8(F::kLinear);
  __vp_assert(o.r == r, "red"); __vp_assert(o.g == g, "green"); __vp_assert(o.b == b, "blue"); __vp_assert(o.a == a, "alpha"); __vp_assert(c.GetColorSpace() == s, "space"); __vp_assert(c.IsInGamut(), "in gamut");
  uint32_t p = c.AsPackedUint32RGBA(F::kLinear); __vp_assert(p == ((uint32_t)o.r << 24 | (uint32_t)o.g << 16 | (uint32_t)o.b << 8 | o.a), "packed order"); __vp_reach("end");
}
VP_ENTRY(c02_gamma) {
  uint8_t r = __vp_u8("r"); uint8_t a = __vp_u8("a"); ColorSpace s = Space(); Color c = Color::FromUint8(r, 0, 255, a, F::kGammaEncoded, s); auto o = c.AsUint8(F::kGammaEncoded);
  __vp_assert(o.r == r, "encoded channel survives"); __vp_assert(o.g == 0 && o.b == 255, "end points"); __vp_assert(o.a == a, "alpha is linear"); __vp_reach("end");
}
VP_ENTRY(c02_gamma_channels) {
  uint8_t g = __vp_u8("g"), b = __vp_u8("b"); auto o = Color::FromUint8(255, g, 0, 7, F::kGammaEncoded).AsUint8(F::kGammaEncoded); __vp_assert(o.g == g, "green"); auto q = Color::FromPackedUint32RGBA((uint32_t)b << 8 | 255, F::kGammaEncoded); __vp_assert(q.AsPackedUint32RGBA(F::kGammaEncoded) == ((uint32_t)b << 8 | 255), "blue"); __vp_reach("end");
}
VP_ENTRY(c02_gamma_increasing) {
  int r = __vp_range("r", 0, 254); Color c = Color::FromUint8(r, 0, 0, 255), d = Color::FromUint8(r + 1, 0, 0, 255); __vp_assert(d.AsFloat(F::kLinear).r > c.AsFloat(F::kLinear).r, "decoding is increasing"); __vp_reach("end");
}
VP_ENTRY(c02_packed) {
  uint32_t x = __vp_u32("x"); ColorSpace s = Space(); Color c = Color::FromPackedUint32RGBA(x, F::kLinear, s), d = Color::FromUint8(x >> 24, x >> 16, x >> 8, x, F::kLinear, s); __vp_assert(c == d, "packed factory equals byte factory");
  auto u = UnpackUint32ARGB(x); __vp_assert((u.a == (uint8_t)(x >> 24)) & (u.r == (uint8_t)(x >> 16)) & (u.g == (uint8_t)(x >> 8)) & (u.b == (uint8_t)x), "ARGB bytes"); __vp_assert(PackUint32ARGB(u) == x, "ARGB pack and unpack are inverse"); __vp_reach("end");
}
VP_ENTRY(c02_packed_premultiplied) {
  uint32_t x = (uint32_t)__vp_u8("r") << 24 | __vp_u8("g") << 16 | __vp_u8("b") << 8 | __vp_u8("a"); bool bad = (x & 255) == 0 && x != 0; if (bad) __vp_expect_check_fail(); Color c = Color::FromPackedUint32RGBA(x, F::kPremultipliedAlpha); __vp_assert(!bad, "transparent non-zero premultiplied colour is detected"); __vp_reach("end");
}
VP_ENTRY(c02_premultiply) { // any non-premultiplied colour, premultiplied on the way out
  uint8_t a = __vp_concretize(__vp_u8("a")); uint8_t r = __vp_u8("r"); auto o = Color::FromUint8(r, 0, 255, a, F::kLinear).AsUint8(F::kPremultipliedAlpha); __vp_assert(o.r <= o.a, "colour at most alpha"); __vp_assert(o.g == 0 && o.b == o.a && o.a == a, "ends"); __vp_reach("end");
}
VP_ENTRY(c02_premultiplied_round_trip) {
  int a = __vp_concretize(__vp_range("a", 0, 255)); if (a == 0) return; uint8_t r = __vp_range("r", 0, a); auto o = Color::FromUint8(r, 0, a, a, F::kPremultipliedAlpha).AsUint8(F::kPremultipliedAlpha); __vp_assert(o.r == r, "premultiplied channel survives"); __vp_assert(o.g == 0 && o.b == a && o.a == a, "ends"); __vp_reach("end");
}
VP_ENTRY(c02_monotone) {
  float x = __vp_f32("x"), y = __vp_f32("y"); __vp_assume(x <= y); auto o = Color::FromFloat(x, y, 0, 1, F::kLinear).AsUint8(F::kLinear); __vp_assert(o.r <= o.g, "monotone"); __vp_assert((x <= 0) <= (o.r == 0), "not above black"); __vp_assert((x >= 1) <= (o.r == 255), "not below full"); __vp_reach("end");
}
// The sRGB transfer curve as published (IEC 61966-2-1).
VP_ENTRY(c02_gamma_decode_curve) {
  int i = __vp_range("i", 0, 255); ColorSpace s = Space(); double v = (float)(i / 255.0), want = v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4); double got = GammaDecode((float)(i / 255.0), s), d = got - want; __vp_assert((d <= 2e-7) & (d >= -2e-7), "decoding follows the sRGB curve");
  auto q = GetGammaDecodingParameters(s); double par = v < q[3] ? q[2] * v : std::pow(q[0] * v + q[1], q[4]), e = got - par; __vp_assert((e <= 1e-6) & (e >= -1e-6), "the published parameters describe the curve"); __vp_reach("end");
}
VP_ENTRY(c02_gamma_encode_curve) {
  int i = __vp_range("i", 0, 1023); ColorSpace s = Space(); double v = i / 1024.0, want = v <= 0.0031308 ? v * 12.92 : 1.055 * std::pow(v, 1 / 2.4) - 0.055; double d = GammaEncode(i / 1024.0f, s) - want; __vp_assert((d <= 1e-6) & (d >= -1e-6), "encoding follows the sRGB curve"); __vp_reach("end");
}
VP_ENTRY(c02_gamma_dark_curve) {
  int i = __vp_range("i", 0, 1023); ColorSpace s = Space(); double v = i / 16384.0, want = v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4); double d = GammaDecode(i / 16384.0f, s) - want; __vp_assert((d <= 3e-8) & (d >= -3e-8), "dark values decode along the sRGB curve");
  double back = GammaEncode(GammaDecode(i / 16384.0f, s), s) - v; __vp_assert((back <= 2e-7) & (back >= -2e-7), "encoding undoes decoding"); __vp_reach("end");
}
