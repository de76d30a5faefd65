// SRC: ink/color/color.cc ink/color/color_space.cc
// OPT: budget=100
// BOUND: all 2^32 bit patterns of every channel and of alpha, every format and both colour spaces
// ASSUME: the library function pow is modelled by its sign, range and endpoint facts and refined with the real values
#include <cmath>

#include "ink/color/color.h"
#include "vp.h"
using namespace ink; typedef Color::Format F;
static ColorSpace Space() { return __vp_concretize(__vp_range("cs", 0, 1)) ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb; }
static bool NotNan(const Color::RgbaFloat& c) { return (c.r == c.r) & (c.g == c.g) & (c.b == c.b) & (c.a == c.a); }
static float Z(float x) { return x != x ? 0 : x; }
static float Ca(float x) { return x != x ? 0 : x < 0 ? 0 : x > 1 ? 1 : x; }
static void Invariant(const Color& c, const char* what) { auto l = c.AsFloat(F::kLinear); __vp_assert(NotNan(l), what); __vp_assert((l.a >= 0) & (l.a <= 1), what); __vp_assert(c.GetAlphaFloat() == l.a, "alpha accessor"); }
VP_ENTRY(c01_linear) {
  float r = __vp_f32("r"), g = __vp_f32("g"), b = __vp_f32("b"), a = __vp_f32("a"); ColorSpace s = Space();
  Color c = Color::FromFloat(r, g, b, a, F::kLinear, s); Invariant(c, "no NaN, alpha in [0,1]"); auto l = c.AsFloat(F::kLinear);
  __vp_assert((l.r == Z(r)) & (l.g == Z(g)) & (l.b == Z(b)) & (l.a == Ca(a)), "channels read back as given"); __vp_assert(c.GetColorSpace() == s, "space kept");
  auto p = c.AsFloat(F::kPremultipliedAlpha); __vp_assert(NotNan(p), "premultiplied values are not NaN"); __vp_assert(p.a == l.a, "alpha independent of format"); if (l.a == 0) __vp_assert((p.r == 0) & (p.g == 0) & (p.b == 0), "transparent premultiplies to zero"); if (l.a == 1) __vp_assert((p.r == l.r) & (p.g == l.g) & (p.b == l.b), "opaque is unchanged by premultiplication"); __vp_reach("end");
}
VP_ENTRY(c01_with_alpha) {
  float r = __vp_f32("r"), g = __vp_f32("g"), b = __vp_f32("b"), a = __vp_f32("a"), n = __vp_f32("n"); ColorSpace s = Space();
  Color c = Color::FromFloat(r, g, b, a, F::kLinear, s).WithAlphaFloat(n); Invariant(c, "alpha replaced"); auto l = c.AsFloat(F::kLinear);
  __vp_assert((l.r == Z(r)) & (l.g == Z(g)) & (l.b == Z(b)), "colour channels untouched"); __vp_assert(l.a == Ca(n), "alpha clamped, NaN is 0"); __vp_assert(c.GetColorSpace() == s, "space kept"); __vp_reach("end");
}
VP_ENTRY(c01_premultiplied) {
  float r = __vp_f32("r"), g = __vp_f32("g"), b = __vp_f32("b"), a = __vp_f32("a"); ColorSpace s = Space();
  bool bad = (Ca(a) == 0) & ((Z(r) != 0) | (Z(g) != 0) | (Z(b) != 0)); if (bad) __vp_expect_check_fail();
  Color c = Color::FromFloat(r, g, b, a, F::kPremultipliedAlpha, s); __vp_assert(!bad, "transparent non-zero premultiplied colour is detected");
  Invariant(c, "un-premultiplied channels"); __vp_assert(c.GetAlphaFloat() == Ca(a), "alpha"); if (Ca(a) == 1) __vp_assert((c.AsFloat(F::kLinear).r == Z(r)) & (c.AsFloat(F::kLinear).b == Z(b)), "opaque colour as given"); __vp_reach("end");
}
VP_ENTRY(c01_gamma) {
  float r = __vp_f32("r"), a = __vp_f32("a"); ColorSpace s = Space(); Color c = Color::FromFloat(r, 0, 1, a, F::kGammaEncoded, s); Invariant(c, "decoded channels"); auto l = c.AsFloat(F::kLinear);
  __vp_assert((l.g == 0) & (l.b == 1), "gamma end points"); if (Z(r) <= 0) __vp_assert(l.r <= 0, "negative stays negative"); else __vp_assert(l.r >= 0, "positive stays positive"); if ((r >= 0) & (r <= 1)) __vp_assert((l.r >= 0) & (l.r <= 1), "nominal range decodes into the nominal range"); __vp_reach("end");
}
VP_ENTRY(c01_gamma_encode) {
  float r = __vp_f32("r"); ColorSpace s = Space(); Color c = Color::FromFloat(r, 0, 1, 1, F::kLinear, s); auto e = c.AsFloat(F::kGammaEncoded); __vp_assert(NotNan(e), "encoded channels are not NaN"); __vp_assert((e.g == 0) & (e.b == 1), "encoding end points"); if ((r >= 0) & (r <= 1)) __vp_assert((e.r >= 0) & (e.r <= 1), "nominal range encodes into the nominal range"); __vp_reach("end");
}
VP_ENTRY(c01_spaces) {
  float r = __vp_f32("r"), g = __vp_f32("g"), b = __vp_f32("b"), a = __vp_f32("a"); ColorSpace s = Space(); ColorSpace t = __vp_concretize(__vp_range("ct", 0, 1)) ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb;
  Color c = Color::FromFloat(r, g, b, a, F::kLinear, s), d = c.InColorSpace(t); Invariant(d, "converted channels"); __vp_assert(d.GetColorSpace() == t, "target space"); __vp_assert(d.GetAlphaFloat() == c.GetAlphaFloat(), "alpha copied"); if (s == t) __vp_assert(d == c, "same space is unchanged"); __vp_reach("end");
}
VP_ENTRY(c01_derived) {
  float r = __vp_f32("r"), g = __vp_f32("g"), b = __vp_f32("b"), a = __vp_f32("a"); Color c = Color::FromFloat(r, g, b, a, F::kLinear, Space()); Invariant(c.ClampedToGamut(), "clamped colour"); Invariant(c.ScaledToGamut(), "scaled colour"); __vp_reach("end");
}
VP_ENTRY(c01_equality) {
  float r = __vp_f32("r"), g = __vp_f32("g"), b = __vp_f32("b"), a = __vp_f32("a"), r2 = __vp_f32("r2"), g2 = __vp_f32("g2"), b2 = __vp_f32("b2"), a2 = __vp_f32("a2"); ColorSpace s = Space(); ColorSpace t = __vp_concretize(__vp_range("ct", 0, 1)) ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb;
  Color c = Color::FromFloat(r, g, b, a, F::kLinear, s), d = Color::FromFloat(r2, g2, b2, a2, F::kLinear, t);
  bool want = (s == t) & (Z(r) == Z(r2)) & (Z(g) == Z(g2)) & (Z(b) == Z(b2)) & (Ca(a) == Ca(a2)); __vp_assert((c == d) == want, "equal exactly when all channels and the space agree"); __vp_assert((c != d) == !want, "!="); __vp_reach("end");
}
