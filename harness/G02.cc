// SRC: ink/geometry/vec.cc
// SRC: ink/geometry/angle.cc
// SRC: ink/geometry/point.cc
// BOUND: every 32-bit pattern for each float component (no bound) for arithmetic, comparison, magnitude, unit vectors and ranges of angles
// ASSUME: libm hypot, acos, atan2, sin and cos constrained by their documented ranges, special cases, symmetry and (hypot) max <= hypot <= 1.4143 max; not assumed correctly rounded
#include <cmath>
#include "ink/geometry/angle.h"
#include "ink/geometry/point.h"
#include "ink/geometry/vec.h"
#include "vp.h"
using ink::Angle; using ink::Point; using ink::Vec;
static const float kPiF = 3.14159265358979f;
static bool Same(Vec a, float x, float y) { return vp::same(a.x, x) && vp::same(a.y, y); }
static bool SameP(Point a, float x, float y) { return vp::same(a.x, x) && vp::same(a.y, y); }
static float Fin(const char* n) { float x = __vp_f32(n); __vp_assume(std::isfinite(x)); return x; }
VP_ENTRY(g02_vec_ops) {
  Vec a{__vp_f32("ax"), __vp_f32("ay")}, b{__vp_f32("bx"), __vp_f32("by")}; float k = __vp_f32("k");
  __vp_assert(Same(a + b, a.x + b.x, a.y + b.y), "+");
  __vp_assert(Same(a - b, a.x - b.x, a.y - b.y), "-");
  __vp_assert(Same(-a, -a.x, -a.y), "negation");
  __vp_assert(Same(a * k, a.x * k, a.y * k), "v * k");
  __vp_assert(Same(k * a, a.x * k, a.y * k), "k * v");
  __vp_assert((a == b) == ((a.x == b.x) & (a.y == b.y)) && (a != b) != (a == b), "equality");
  __vp_assert(Same(a.Orthogonal(), -a.y, a.x), "orthogonal");
  Vec c = a; Vec* r = &(c += b); __vp_assert(r == &c && Same(c, a.x + b.x, a.y + b.y), "+=");
  c = a; r = &(c -= b); __vp_assert(r == &c && Same(c, a.x - b.x, a.y - b.y), "-=");
  c = a; r = &(c *= k); __vp_assert(r == &c && Same(c, a.x * k, a.y * k), "*=");
  __vp_reach("end");
}
VP_ENTRY(g02_vec_div) {
  Vec a{__vp_f32("ax"), __vp_f32("ay")}; float k = __vp_f32("k"); __vp_assume(k != 0);
  __vp_assert(Same(a / k, a.x / k, a.y / k), "/");
  Vec c = a; Vec* r = &(c /= k); __vp_assert(r == &c && Same(c, a.x / k, a.y / k), "/=");
  __vp_reach("end");
}
VP_ENTRY(g02_vec_div0) {
  Vec a{__vp_f32("ax"), __vp_f32("ay")}; float k = __vp_f32("k"); __vp_assume(k == 0);
  __vp_expect_check_fail(); Vec c = a / k; __vp_assert(c.x == c.x + 1, "division by zero must fail");
}
VP_ENTRY(g02_point_ops) {
  Point p{__vp_f32("px"), __vp_f32("py")}, q{__vp_f32("qx"), __vp_f32("qy")}; Vec v{__vp_f32("vx"), __vp_f32("vy")};
  __vp_assert(Same(p - q, p.x - q.x, p.y - q.y), "point - point");
  __vp_assert(SameP(p + v, p.x + v.x, p.y + v.y), "point + vec");
  __vp_assert(SameP(v + p, p.x + v.x, p.y + v.y), "vec + point");
  __vp_assert(SameP(p - v, p.x - v.x, p.y - v.y), "point - vec");
  __vp_assert(Same(p.Offset(), p.x, p.y), "offset from the origin");
  __vp_assert((p == q) == ((p.x == q.x) & (p.y == q.y)) && (p != q) != (p == q), "equality");
  Point c = p; Point* r = &(c += v); __vp_assert(r == &c && SameP(c, p.x + v.x, p.y + v.y), "+=");
  c = p; r = &(c -= v); __vp_assert(r == &c && SameP(c, p.x - v.x, p.y - v.y), "-=");
  __vp_reach("end");
}
// On a grid where every product and sum is exact, against integer arithmetic.
static float Int(unsigned u) { return static_cast<float>(static_cast<int>(u)); }
VP_ENTRY(g02_products) {
  unsigned x1 = __vp_range("x1", -512, 511), y1 = __vp_range("y1", -512, 511), x2 = __vp_range("x2", -512, 511), y2 = __vp_range("y2", -512, 511);
  Vec a{Int(x1), Int(y1)}, b{Int(x2), Int(y2)};
  __vp_assert(Vec::DotProduct(a, b) == Int(x1 * x2 + y1 * y2), "dot product");
  __vp_assert(Vec::Determinant(a, b) == Int(x1 * y2 - y1 * x2), "determinant");
  __vp_assert(a.MagnitudeSquared() == Int(x1 * x1 + y1 * y1), "squared magnitude");
  __vp_assert(Vec::Determinant(a, a.Orthogonal()) == Int(x1 * x1 + y1 * y1), "orthogonal turns counter-clockwise");
  __vp_assert(Vec::DotProduct(a, a.Orthogonal()) == 0, "orthogonal is perpendicular");
  __vp_reach("end");
}
VP_ENTRY(g02_magnitude) {
  Vec a{__vp_f32("ax"), __vp_f32("ay")}; float m = a.Magnitude();
  float x = std::fabs(a.x), y = std::fabs(a.y), mx = x < y ? y : x;
  if (std::isinf(a.x) || std::isinf(a.y)) { __vp_reach("inf"); __vp_assert(std::isinf(m) && m > 0, "infinite magnitude"); }
  else if (std::isnan(a.x) || std::isnan(a.y)) { __vp_reach("nan"); __vp_assert(std::isnan(m), "NaN magnitude"); }
  else {
    __vp_reach("finite");
    __vp_assert(m >= mx, "at least the largest component"); __vp_assert(m <= 1.4143f * mx || mx < 1e-40f, "at most sqrt(2) times the largest component");
    __vp_assert(m > 0 || (x == 0 && y == 0), "zero only for the zero vector");
    if (x == 0) __vp_assert(m == y, "axis aligned"); if (y == 0) __vp_assert(m == x, "axis aligned");
  }
}
VP_ENTRY(g02_unit_finite) {
  Vec a{Fin("ax"), Fin("ay")}; Vec u = a.AsUnitVec();
  __vp_assert(!std::isnan(u.x) && !std::isnan(u.y), "no NaN");
  __vp_assert(std::fabs(u.x) <= 1 && std::fabs(u.y) <= 1, "components in [-1, 1]");
  __vp_assert(u.x != 0 || u.y != 0, "never the zero vector");
  __vp_assert(std::signbit(u.x) == std::signbit(a.x) && std::signbit(u.y) == std::signbit(a.y), "same quadrant");
  if (a.x == 0 && a.y == 0) { __vp_reach("zero"); __vp_assert(std::fabs(u.x) == 1 && u.y == 0, "zero vector"); }
  else { __vp_reach("nonzero"); if (a.y == 0) __vp_assert(std::fabs(u.x) == 1 && u.y == 0, "x axis"); if (a.x == 0) __vp_assert(std::fabs(u.y) == 1 && u.x == 0, "y axis"); }
}
VP_ENTRY_T(g02_unit_length) {
  Vec a{Fin("ax"), Fin("ay")}; Vec u = a.AsUnitVec();
  float big = std::fabs(u.x) < std::fabs(u.y) ? std::fabs(u.y) : std::fabs(u.x);
  __vp_assert(big >= 0.707f, "not shorter than a unit vector");
  __vp_assert(std::fabs(a.x) >= std::fabs(a.y) || std::fabs(u.x) <= std::fabs(u.y), "same dominant axis");
  __vp_reach("end");
}
VP_ENTRY(g02_unit_infinite) {
  Vec a{__vp_f32("ax"), __vp_f32("ay")}; __vp_assume(!std::isfinite(a.x) || !std::isfinite(a.y));
  Vec u = a.AsUnitVec();
  if (std::isnan(a.x) || std::isnan(a.y)) { __vp_reach("nan"); __vp_assert(std::isnan(u.x) && std::isnan(u.y), "NaN"); return; }
  __vp_assert(std::signbit(u.x) == std::signbit(a.x) && std::signbit(u.y) == std::signbit(a.y), "same quadrant");
  if (std::isinf(a.x) && std::isinf(a.y)) { __vp_reach("both"); __vp_assert(std::fabs(u.x) == std::fabs(u.y) && u.x * u.x > 0.4999f && u.x * u.x < 0.5001f, "diagonal"); }
  else if (std::isinf(a.x)) { __vp_reach("x"); __vp_assert(std::fabs(u.x) == 1 && u.y == 0, "x axis"); }
  else { __vp_reach("y"); __vp_assert(std::fabs(u.y) == 1 && u.x == 0, "y axis"); }
}
static bool AnyNan(Vec a, Vec b) { return std::isnan(a.x) || std::isnan(a.y) || std::isnan(b.x) || std::isnan(b.y); }
VP_ENTRY(g02_abs_angle) {
  Vec a{__vp_f32("ax"), __vp_f32("ay")}, b{__vp_f32("bx"), __vp_f32("by")};
  float m = vp::merged([&] { return Vec::AbsoluteAngleBetween(a, b).ValueInRadians(); });
  if (AnyNan(a, b)) { __vp_reach("nan"); __vp_assert(std::isnan(m), "NaN components give a NaN angle"); return; }
  __vp_reach("num");
  __vp_assert(m >= 0 && m <= kPiF, "absolute angle in [0, pi]");
}
VP_ENTRY(g02_signed_angle) {
  Vec a{Fin("ax"), Fin("ay")}, b{Fin("bx"), Fin("by")};
  float m = Vec::AbsoluteAngleBetween(a, b).ValueInRadians(), s = Vec::SignedAngleBetween(a, b).ValueInRadians();
  __vp_assert(std::fabs(s) == m, "the signed angle has the absolute angle as magnitude");
  __vp_assert(s > -kPiF && s <= kPiF, "signed angle in (-pi, pi]");
  __vp_reach("end");
}
VP_ENTRY(g02_signed_angle_nan) {
  Vec a{__vp_f32("ax"), __vp_f32("ay")}, b{__vp_f32("bx"), __vp_f32("by")};
  __vp_assume(std::isnan(a.x) | std::isnan(a.y) | std::isnan(b.x) | std::isnan(b.y));
  __vp_assert(std::isnan(Vec::SignedAngleBetween(a, b).ValueInRadians()), "NaN components give a NaN angle");
  __vp_reach("end");
}
VP_ENTRY_T(g02_signed_angle_inf) {
  Vec a{__vp_f32("ax"), __vp_f32("ay")}, b{__vp_f32("bx"), __vp_f32("by")};
  __vp_assume(!AnyNan(a, b)); __vp_assume(std::isinf(a.x) | std::isinf(a.y) | std::isinf(b.x) | std::isinf(b.y));
  float s = Vec::SignedAngleBetween(a, b).ValueInRadians();
  __vp_assert(s > -kPiF && s <= kPiF, "signed angle in (-pi, pi]");
  __vp_reach("end");
}
VP_ENTRY(g02_turn_sign) {  // orientation of the signed angle along the axes
  int k = __vp_concretize(__vp_range("k", 0, 7)); float m = (float)__vp_concretize(__vp_range("m", 1, 3)), z = k >= 4 ? -0.0f : 0.0f;
  Vec a = k % 4 == 0 ? Vec{m, z} : k % 4 == 1 ? Vec{z, m} : k % 4 == 2 ? Vec{-m, z} : Vec{z, -m};
  Vec b = a.Orthogonal();
  __vp_assert(Vec::SignedAngleBetween(a, b).ValueInRadians() > 1.57f && Vec::SignedAngleBetween(a, b).ValueInRadians() < 1.571f, "a quarter turn counter-clockwise is +pi/2");
  __vp_assert(Vec::SignedAngleBetween(b, a).ValueInRadians() < -1.57f && Vec::SignedAngleBetween(b, a).ValueInRadians() > -1.571f, "and -pi/2 back");
  __vp_assert(Vec::SignedAngleBetween(a, a).ValueInRadians() == 0, "no angle to itself"); __vp_assert(Vec::SignedAngleBetween(a, -a).ValueInRadians() == kPiF, "pi to the opposite");
  __vp_reach("end");
}
VP_ENTRY(g02_turn_sign_grid) {  // the sign agrees with the determinant whenever that is exact and not tiny
  Vec a{(float)__vp_range("ax", -4, 4), (float)__vp_range("ay", -4, 4)}, b{(float)__vp_range("bx", -4, 4), (float)__vp_range("by", -4, 4)};
  a.x = (float)(int)__vp_concretize((int)a.x); a.y = (float)(int)__vp_concretize((int)a.y); b.x = (float)(int)__vp_concretize((int)b.x); b.y = (float)(int)__vp_concretize((int)b.y);
  float d = Vec::Determinant(a, b); float s = Vec::SignedAngleBetween(a, b).ValueInRadians();
  if (d > 0) __vp_assert(s > 0, "counter-clockwise is positive"); if (d < 0) __vp_assert(s < 0, "clockwise is negative");
  if (d == 0 && Vec::DotProduct(a, b) > 0) __vp_assert(std::fabs(s) < 1e-3f, "parallel"); if (d == 0 && Vec::DotProduct(a, b) < 0) __vp_assert(std::fabs(s) > 3.14f, "antiparallel");
  __vp_reach("end");
}
VP_ENTRY(g02_nearly_opposite) { // rounding to a half turn never leaves the interval
  float t = vp::grid("t", -255, 255, 22), m = (float)__vp_concretize(__vp_range("m", 1, 3)); int k = __vp_concretize(__vp_range("k", 0, 3)); Vec a = k & 1 ? Vec{1, t} : Vec{t, 1}, b = k & 1 ? Vec{-m, 0} : Vec{0, -m}; if (k & 2) { Vec c = a; a = b; b = c; } float s = Vec::SignedAngleBetween(a, b).ValueInRadians(), u = Vec::AbsoluteAngleBetween(a, b).ValueInRadians(); __vp_assert((s > -kPiF) & (s <= kPiF), "in (-pi, pi]"); __vp_assert((s == u) | (s == -u), "the absolute angle has the same magnitude"); __vp_assert(u > 3.14f, "nearly a half turn"); __vp_reach("end");
}
VP_ENTRY(g02_direction) {
  Vec a{__vp_f32("ax"), __vp_f32("ay")}; float d = a.Direction().ValueInRadians();
  if (std::isnan(a.x) || std::isnan(a.y)) { __vp_reach("nan"); __vp_assert(std::isnan(d), "NaN"); return; }
  __vp_reach("num");
  __vp_assert(d >= -kPiF && d <= kPiF, "direction in [-pi, pi]"); __vp_assert(std::signbit(d) == std::signbit(a.y), "direction has the sign of y");
  if (a.x > 0) __vp_assert(std::fabs(d) <= 1.570797f, "right half plane"); if (a.x < 0) __vp_assert(std::fabs(d) >= 1.570796f, "left half plane");
  __vp_assert(vp::same(d, std::atan2(a.y, a.x)), "atan2");
}
VP_ENTRY(g02_polar) {
  float r = __vp_f32("r"), t = __vp_f32("t"); Vec v = Vec::FromDirectionAndMagnitude(Angle::Radians(t), r);
  __vp_assert(vp::same(v.x, r * std::cos(t)) && vp::same(v.y, r * std::sin(t)), "polar coordinates");
  __vp_reach("end");
}
