// SRC: ink/color/color.cc ink/color/color_space.cc
// OPT: budget=100
// BOUND: all non-NaN channel values (infinities included) for clamping, scaling and gamut tests; all in-gamut channel values for the conversions between sRGB and Display P3
#include <cmath>

#include "ink/color/color.h"
#include "ink/color/color_space.h"
#include "vp.h"
using namespace ink; typedef Color::Format F;
static ColorSpace Space() { return __vp_concretize(__vp_range("cs", 0, 1)) ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb; }
struct Any { float r = __vp_f32("r"), g = __vp_f32("g"), b = __vp_f32("b"), a = __vp_f32("a"); Any() { __vp_assume((r == r) & (g == g) & (b == b) & (a >= 0) & (a <= 1)); } };
static bool In(float x) { return (x >= 0) & (x <= 1); }
static float C(float x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
VP_ENTRY(c03_clamp) {
  Any x; ColorSpace s = Space(); Color c = Color::FromFloat(x.r, x.g, x.b, x.a, F::kLinear, s), d = c.ClampedToGamut(); auto l = d.AsFloat(F::kLinear);
  __vp_assert(d.IsInGamut() & In(l.r) & In(l.g) & In(l.b), "clamped is in gamut"); __vp_assert((l.r == C(x.r)) & (l.g == C(x.g)) & (l.b == C(x.b)), "each channel clamped"); __vp_assert((l.a == x.a) & (d.GetColorSpace() == s), "alpha and space kept");
  bool in = In(x.r) & In(x.g) & In(x.b); __vp_assert(c.IsInGamut() == in, "gamut test"); if (in) __vp_assert(d == c, "in-gamut colour unchanged"); __vp_assert(d.ClampedToGamut() == d, "idempotent"); __vp_reach("end");
}
VP_ENTRY(c03_scale) {
  Any x; ColorSpace s = Space(); Color c = Color::FromFloat(x.r, x.g, x.b, x.a, F::kLinear, s), d = c.ScaledToGamut(); auto l = d.AsFloat(F::kLinear);
  __vp_assert(In(l.r), "red in gamut"); __vp_assert(In(l.g), "green in gamut"); __vp_assert(In(l.b), "blue in gamut"); __vp_assert((l.a == x.a) & (d.GetColorSpace() == s), "alpha and space kept");
  bool in = In(x.r) & In(x.g) & In(x.b); if (in) __vp_assert(d == c, "in-gamut colour unchanged"); if ((x.r <= 0) | (x.g <= 0)) __vp_assert(((x.r > 0) | (l.r == 0)) & ((x.g > 0) | (l.g == 0)), "negative channels become zero");
  if ((x.r > 1) & (x.r >= x.g) & (x.r >= x.b)) __vp_assert(l.r == 1, "largest channel becomes one"); if ((x.b > 1) & (x.b >= x.g) & (x.b >= x.r)) __vp_assert(l.b == 1, "largest channel becomes one (blue)"); __vp_assert(d.IsInGamut(), "result passes the gamut test"); __vp_reach("end");
}
VP_ENTRY(c03_nearly) {
  Any x; Color c = Color::FromFloat(x.r, x.g, x.b, x.a, F::kLinear, Space()); __vp_assert(c.IsInGamut() <= c.IsNearlyInGamut(), "in gamut implies nearly in gamut"); const float e = 2e-5f; bool far = (x.r < -e) | (x.g < -e) | (x.b < -e) | (x.r > 1 + e) | (x.g > 1 + e) | (x.b > 1 + e); if (far) __vp_assert(!c.IsNearlyInGamut(), "far outside is not nearly in gamut"); const float n = 1e-6f; bool close = (x.r >= -n) & (x.g >= -n) & (x.b >= -n) & (x.r <= 1 + n) & (x.g <= 1 + n) & (x.b <= 1 + n); if (close) __vp_assert(c.IsNearlyInGamut(), "a rounding error outside is nearly in gamut"); __vp_reach("end");
}
VP_ENTRY(c03_scale_infinite) { Any x; const float inf = __builtin_inff(); bool any = (x.r == inf) | (x.g == inf) | (x.b == inf); __vp_assume(any); auto l = Color::FromFloat(x.r, x.g, x.b, x.a, F::kLinear, Space()).ScaledToGamut().AsFloat(F::kLinear); __vp_assert((l.r == (x.r == inf ? 1.f : 0.f)) & (l.g == (x.g == inf ? 1.f : 0.f)) & (l.b == (x.b == inf ? 1.f : 0.f)), "infinite channels dominate finite ones"); __vp_reach("end"); }
VP_ENTRY(c03_scale_proportion) { Any x; float k = vp::grid("k", 1, 255, 4), h = vp::grid("h", -16, 255, 4); auto l = Color::FromFloat(k, h, 0.5f, x.a, F::kLinear, Space()).ScaledToGamut().AsFloat(F::kLinear); float hc = h < 0 ? 0 : h, m = k > hc ? k : hc; if (m < 1) m = 1; float eg = l.g * m - hc, eb = l.b * m - 0.5f, er = l.r * m - k; __vp_assert((er < 1e-5f) & (er > -1e-5f) & (eg < 1e-5f) & (eg > -1e-5f) & (eb < 1e-5f) & (eb > -1e-5f), "all channels are scaled by the same factor"); __vp_reach("end"); }
VP_ENTRY(c03_equality) {
  Any x, y; bool k = __vp_concretize(__vp_range("k", 0, 1)); ColorSpace s = Space(), t = k ? ColorSpace::kSrgb : ColorSpace::kDisplayP3; Color c = Color::FromFloat(x.r, x.g, x.b, x.a, F::kLinear, s), d = Color::FromFloat(y.r, y.g, y.b, y.a, F::kLinear, t);
  bool same = (s == t) & (x.r == y.r) & (x.g == y.g) & (x.b == y.b) & (x.a == y.a); __vp_assert((c == d) == same, "equal exactly when space and all channels match"); __vp_assert((c != d) != (c == d), "inequality negates equality"); __vp_reach("end");
}
VP_ENTRY(c03_nearly_equal_channels) { Any x, y; __vp_assume(In(x.r) & In(x.g) & In(x.b) & In(y.r) & In(y.g) & In(y.b)); ColorSpace s = Space(); Color c = Color::FromFloat(x.r, x.g, x.b, x.a, F::kLinear, s), d = Color::FromFloat(y.r, y.g, y.b, y.a, F::kLinear, s); auto df = [](float a, float b) { return a < b ? b - a : a - b; }; const float e = 2e-5f, n = 1e-6f; bool far = (df(x.r, y.r) > e) | (df(x.g, y.g) > e) | (df(x.b, y.b) > e) | (df(x.a, y.a) > e), close = (df(x.r, y.r) < n) & (df(x.g, y.g) < n) & (df(x.b, y.b) < n) & (df(x.a, y.a) < n); if (far) __vp_assert(!c.NearlyEquals(d), "a channel that differs is noticed"); if (close) __vp_assert(c.NearlyEquals(d), "rounding errors are ignored"); __vp_reach("end"); }
VP_ENTRY(c03_same_space) { Any x; ColorSpace s = Space(); Color c = Color::FromFloat(x.r, x.g, x.b, x.a, F::kLinear, s); __vp_assert(c.InColorSpace(s) == c, "conversion to the own space changes nothing"); __vp_reach("end"); }
struct Gamut { float r = __vp_f32_range("r", 0, 1), g = __vp_f32_range("g", 0, 1), b = __vp_f32_range("b", 0, 1); };
VP_ENTRY(c03_srgb_within_p3) { Gamut x; Color d = Color::FromFloat(x.r, x.g, x.b, 1, F::kLinear, ColorSpace::kSrgb).InColorSpace(ColorSpace::kDisplayP3); auto l = d.AsFloat(F::kLinear); const float e = 7e-6f; __vp_assert((l.r >= -e) & (l.r <= 1 + e), "red"); __vp_assert((l.g >= -e) & (l.g <= 1 + e), "green"); __vp_assert((l.b >= -e) & (l.b <= 1 + e), "blue"); __vp_reach("end"); }
VP_ENTRY(c03_space_round_trip) { Gamut x; bool k = __vp_concretize(__vp_range("k", 0, 1)); ColorSpace s = k ? ColorSpace::kSrgb : ColorSpace::kDisplayP3, t = k ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb; auto l = Color::FromFloat(x.r, x.g, x.b, 1, F::kLinear, s).InColorSpace(t).InColorSpace(s).AsFloat(F::kLinear); const float e = 7e-6f; __vp_assert((l.r - x.r <= e) & (x.r - l.r <= e), "red"); __vp_assert((l.g - x.g <= e) & (x.g - l.g <= e), "green"); __vp_assert((l.b - x.b <= e) & (x.b - l.b <= e), "blue"); __vp_reach("end"); }
VP_ENTRY(c03_nearly_equal) { Gamut x; Color c = Color::FromFloat(x.r, x.g, x.b, 1, F::kLinear, ColorSpace::kSrgb); __vp_assert(c.NearlyEquals(c), "a colour nearly equals itself"); __vp_assert(c.NearlyEquals(c.InColorSpace(ColorSpace::kDisplayP3)), "and its conversion to another space"); __vp_reach("end"); }
// The published matrices to CIE XYZ under the D65 white point are consistent with each other and with conversions.
VP_ENTRY(c03_xyz) {
  Gamut x; bool k = __vp_concretize(__vp_range("k", 0, 1)); ColorSpace s = k ? ColorSpace::kSrgb : ColorSpace::kDisplayP3, t = k ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb; auto ms = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kRowMajor), mt = GetColorSpaceToXyzD65Matrix(t, MatrixLayout::kRowMajor);
  auto l = Color::FromFloat(x.r, x.g, x.b, 1, F::kLinear, s).InColorSpace(t).AsFloat(F::kLinear); for (int i = 0; i < 3; ++i) { double d = ((double)ms[3 * i] * x.r + (double)ms[3 * i + 1] * x.g + (double)ms[3 * i + 2] * x.b) - ((double)mt[3 * i] * l.r + (double)mt[3 * i + 1] * l.g + (double)mt[3 * i + 2] * l.b); __vp_assert((d <= 1e-5) & (d >= -1e-5), "conversion keeps the XYZ coordinates"); } __vp_reach("end");
}
VP_ENTRY(c03_matrices) {
  ColorSpace s = Space(); auto r = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kRowMajor), c = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kColumnMajor); const double white[3] = {0.9504, 1, 1.0889}; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { __vp_assert(r[3 * i + j] == c[3 * j + i], "the layouts are transposes"); __vp_assert((r[3 * i + j] >= 0) & (r[3 * i + j] < 1.1f), "entries"); } double w = (double)r[3 * i] + r[3 * i + 1] + r[3 * i + 2] - white[i]; __vp_assert((w < 2e-3) & (w > -2e-3), "white is D65"); } __vp_reach("end");
}
