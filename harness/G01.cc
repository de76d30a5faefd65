// SRC: ink/geometry/angle.cc
// BOUND: every finite float for the interval and fixed-point claims and for the operators; |angle| <= 4 pi for congruence
// ASSUME: fmod of |a| < 2|b| computed exactly by the solver's fp.rem-based definition; larger quotients constrained only by |fmod| < |b|, same sign as the dividend; sin, cos, tan, asin, acos, atan only need to be applied to the radians value
#include <cmath>
#include "ink/geometry/angle.h"
#include "vp.h"
using ink::Angle;
static const float kPiF = 3.14159265358979f, k2PiF = 6.28318530717958f;
static bool Near(float a, float b) { return vp::same(a, b) || std::fabs(a - b) <= 1e-6f * std::fabs(b) + 1e-44f; }
static float Fin(const char* n) { float x = __vp_f32(n); __vp_assume(std::isfinite(x)); return x; }
VP_ENTRY(g01_normalized) {
  float x = Fin("x"); float r = Angle::Radians(x).Normalized().ValueInRadians();
  __vp_assert(r >= 0 && r < k2PiF, "Normalized() lies in [0, 2pi)");
  if (x >= 0 && x < k2PiF) { __vp_reach("inside"); __vp_assert(r == x, "an angle already normalized is unchanged"); } else __vp_reach("outside");
}
VP_ENTRY(g01_about_zero) {
  float x = Fin("x"); float r = Angle::Radians(x).NormalizedAboutZero().ValueInRadians();
  __vp_assert(r > -kPiF && r <= kPiF, "NormalizedAboutZero() lies in (-pi, pi]");
  if (x > -kPiF && x <= kPiF) { __vp_reach("inside"); __vp_assert(r == x, "an angle already normalized is unchanged"); } else __vp_reach("outside");
}
static bool Congruent(float x, float r) {
  float d = x - r;
  bool ok = false;
  for (int k = -3; k <= 3; ++k) ok = ok | (std::fabs(d - k * k2PiF) <= 4e-6f);
  return ok;
}
VP_ENTRY(g01_congruent) {
  float x = Fin("x"); __vp_assume(x >= -2 * k2PiF && x <= 2 * k2PiF);
  __vp_assert(Congruent(x, Angle::Radians(x).Normalized().ValueInRadians()), "Normalized() is congruent");
  __vp_reach("end");
}
VP_ENTRY(g01_congruent0) {
  float x = Fin("x"); __vp_assume(x >= -2 * k2PiF && x <= 2 * k2PiF);
  __vp_assert(Congruent(x, Angle::Radians(x).NormalizedAboutZero().ValueInRadians()), "NormalizedAboutZero() is congruent");
  __vp_reach("end");
}
VP_ENTRY(g01_units) {
  float x = __vp_f32("x");
  Angle a = Angle::Radians(x), d = Angle::Degrees(x);
  __vp_assert(vp::same(a.ValueInRadians(), x), "radians read back");
  if (std::fabs(x) < 1e36f || std::isinf(x)) __vp_assert(Near(d.ValueInRadians(), x * (kPiF / 180.0f)), "degrees to radians");
  if (std::fabs(x) < 1e36f || std::isinf(x)) __vp_assert(Near(a.ValueInDegrees(), x * (180.0f / kPiF)), "radians to degrees");
  __vp_assert(Angle().ValueInRadians() == 0, "default is zero");
  __vp_assert(ink::kQuarterTurn.ValueInRadians() == kPiF / 2 && ink::kHalfTurn.ValueInRadians() == kPiF && ink::kFullTurn.ValueInRadians() == k2PiF, "turn constants");
  __vp_assert(vp::same(ink::Abs(a).ValueInRadians(), std::fabs(x)), "Abs");
  __vp_assert(vp::same((-a).ValueInRadians(), -x), "negation");
  __vp_reach("end");
}
VP_ENTRY(g01_trig) {
  float x = __vp_f32("x"); Angle a = Angle::Radians(x);
  __vp_assert(vp::same(ink::Sin(a), std::sin(x)), "Sin"); __vp_assert(vp::same(ink::Cos(a), std::cos(x)), "Cos"); __vp_assert(vp::same(ink::Tan(a), std::tan(x)), "Tan");
  __vp_assert(vp::same(ink::Asin(x).ValueInRadians(), std::asin(x)), "Asin"); __vp_assert(vp::same(ink::Acos(x).ValueInRadians(), std::acos(x)), "Acos"); __vp_assert(vp::same(ink::Atan(x).ValueInRadians(), std::atan(x)), "Atan");
  __vp_reach("end");
}
VP_ENTRY(g01_ops) {
  float x = __vp_f32("x"), y = __vp_f32("y"); Angle a = Angle::Radians(x), b = Angle::Radians(y);
  __vp_assert((a == b) == (x == y) && (a != b) == (x != y), "equality");
  __vp_assert((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "order");
  __vp_assert(vp::same((a + b).ValueInRadians(), x + y), "+");
  __vp_assert(vp::same((a - b).ValueInRadians(), x - y), "-");
  __vp_assert(vp::same((a * y).ValueInRadians(), x * y), "a * k");
  __vp_assert(vp::same((y * a).ValueInRadians(), y * x), "k * a");
  __vp_assert(vp::same((a / y).ValueInRadians(), x / y), "a / k");
  __vp_assert(vp::same(a / b, x / y), "ratio");
  if (!std::isnan(x) && !std::isnan(y)) {
    __vp_reach("num");
    __vp_assert(ink::Min(a, b).ValueInRadians() == (x < y ? x : y), "Min");
    __vp_assert(ink::Max(a, b).ValueInRadians() == (x < y ? y : x), "Max");
  }
  Angle c = a; Angle* r = &(c += b); __vp_assert(r == &c && vp::same(c.ValueInRadians(), x + y), "+=");
  c = a; c -= b; __vp_assert(vp::same(c.ValueInRadians(), x - y), "-=");
  c = a; c *= y; __vp_assert(vp::same(c.ValueInRadians(), x * y), "*=");
  c = a; c /= y; __vp_assert(vp::same(c.ValueInRadians(), x / y), "/=");
}
VP_ENTRY(g01_mod) {
  float x = Fin("x"), y = Fin("y"); __vp_assume(y != 0);
  float r = ink::Mod(Angle::Radians(x), Angle::Radians(y)).ValueInRadians();
  __vp_assert(std::fabs(r) < std::fabs(y), "|Mod| below the divisor");
  if (std::fabs(x) < std::fabs(y)) { __vp_reach("small"); __vp_assert(r == x, "Mod of a smaller angle is itself"); }
  if (r != 0) { __vp_reach("nonzero"); __vp_assert((r > 0) == (x > 0), "Mod has the sign of the dividend"); }
}
