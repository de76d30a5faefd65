// SRC: ink/geometry/segment.cc
// SRC: ink/geometry/vec.cc
// SRC: ink/geometry/angle.cc
// SRC: ink/geometry/internal/algorithms.cc
// BOUND: value at 0, common value, colour, point and angle end points: every finite float (difference finite where the formula subtracts); value at 1 of the scalar form, range mapping: dyadic grid k/16, |k| <= 2^18; interval membership of inverse interpolation: every float up to 1.5e38 in magnitude; normalized angle interpolation: angles in [-8,8] rad, ratio in [0,1]; spiral magnitudes: axis directions, magnitudes 0..2, quarter ratios; barycentric: integer coordinates in [-16,15], edge vectors up to 2
// ASSUME: libm functions constrained by their documented ranges on symbolic arguments; host libm on concrete arguments
#include <cmath>
#include <limits>
#include <optional>
#include <utility>
#include "ink/color/color.h"
#include "ink/geometry/internal/algorithms.h"
#include "vp.h"
using ink::Angle; using ink::Color; using ink::Point; using ink::Triangle; using ink::Vec;
using ink::geometry_internal::GetBarycentricCoordinates; using ink::geometry_internal::InverseLerp; using ink::geometry_internal::Lerp; using ink::geometry_internal::LinearMap; using ink::geometry_internal::NormalizedAngleLerp; using ink::geometry_internal::SpiralLerp;
namespace {
constexpr float kMax = std::numeric_limits<float>::max();
constexpr float kTwoPi = 6.2831855f;
float I(const char* n, int lo, int hi) { return static_cast<float>(__vp_range(n, lo, hi)); }
float C(const char* n, int lo, int hi) { return static_cast<float>(static_cast<int>(__vp_concretize(__vp_range(n, lo, hi)))); }
float D(const char* n) { return I(n, -262144, 262143) * 0.0625f; }
float F(const char* n) { return __vp_f32_range(n, -kMax, kMax); }
bool Fin(float x) { return std::fabs(x) <= kMax; }
}
VP_ENTRY(g11_scalar_ends) {
  float a = F("a"), b = F("b"); __vp_assume(Fin(b - a)); __vp_assert(Lerp(a, b, 0.0f) == a, "0 gives the first value");
  float c = F("c"), t = F("t"); __vp_assert(Lerp(c, c, t) == c, "equal ends give the common value"); __vp_reach("end");
}
VP_ENTRY(g11_scalar_grid) {
  float a = D("a"), b = D("b"); __vp_assert(Lerp(a, b, 1.0f) == b, "1 gives the second value"); float t = I("t", -8, 16) * 0.125f;
  float c = I("c", -4096, 4095), d = I("d", -4096, 4095); __vp_assert(Lerp(c, d, t) == c + (d - c) * t, "interpolates linearly and extrapolates");
  Vec v = Lerp(Vec{c, d}, Vec{d, c}, t); __vp_assert(v.x == c + (d - c) * t, "vector x"); __vp_assert(v.y == d + (c - d) * t, "vector y");
  Point p = Lerp(Point{c, d}, Point{d, c}, t); __vp_assert(p.x == c + (d - c) * t, "point x"); __vp_assert(p.y == d + (c - d) * t, "point y"); __vp_reach("end");
}
VP_ENTRY(g11_point_ends) {
  Point a{F("ax"), F("ay")}, b{F("bx"), F("by")}; __vp_assert(Lerp(a, b, 0.0f) == a, "0 gives the first point"); __vp_assert(Lerp(a, b, 1.0f) == b, "1 gives the second point"); __vp_reach("end");
}
VP_ENTRY(g11_color_ends) {
  Color::RgbaFloat a{F("ar"), F("ag"), F("ab"), F("aa")}, b{F("br"), F("bg"), F("bb"), F("ba")}; auto x = Lerp(a, b, 0.0f), y = Lerp(a, b, 1.0f);
  __vp_assert((x.r == a.r) & (x.g == a.g) & (x.b == a.b) & (x.a == a.a), "0 gives the first colour"); __vp_assert((y.r == b.r) & (y.g == b.g) & (y.b == b.b) & (y.a == b.a), "1 gives the second colour");
  Color::RgbaFloat c{I("cr", 0, 255), I("cg", 0, 255), I("cb", 0, 255), I("ca", 0, 255)}, d{I("dr", 0, 255), I("dg", 0, 255), I("db", 0, 255), I("da", 0, 255)}; float t = I("t", 0, 8) * 0.125f; auto z = Lerp(c, d, t);
  __vp_assert(z.r == c.r + (d.r - c.r) * t, "red"); __vp_assert(z.g == c.g + (d.g - c.g) * t, "green"); __vp_assert(z.b == c.b + (d.b - c.b) * t, "blue"); __vp_assert(z.a == c.a + (d.a - c.a) * t, "alpha"); __vp_reach("end");
}
VP_ENTRY(g11_angle_ends) {
  float a = F("a"), b = F("b"); __vp_assert(Lerp(Angle::Radians(a), Angle::Radians(b), 0.0f).ValueInRadians() == a, "0 gives the first angle"); __vp_assert(Lerp(Angle::Radians(a), Angle::Radians(b), 1.0f).ValueInRadians() == b, "1 gives the second angle");
  float c = I("c", -64, 63), d = I("d", -64, 63), t = I("t", -8, 16) * 0.125f; __vp_assert(Lerp(Angle::Radians(c), Angle::Radians(d), t).ValueInRadians() == c + (d - c) * t, "no wrapping of angles"); __vp_reach("end");
}
VP_ENTRY(g11_normalized_angle_range) {
  float a = __vp_f32_range("a", -8, 8), b = __vp_f32_range("b", -8, 8), t = __vp_f32_range("t", 0, 1);
  float r = NormalizedAngleLerp(Angle::Radians(a), Angle::Radians(b), t).ValueInRadians(); __vp_assert((r >= 0) & (r < kTwoPi), "result in [0, 2pi)"); __vp_reach("end");
}
VP_ENTRY(g11_normalized_angle_start) {
  float a = __vp_f32_range("a", -8, 8), b = __vp_f32_range("b", -8, 8); Angle r = NormalizedAngleLerp(Angle::Radians(a), Angle::Radians(b), 0.0f);
  __vp_assert(r == Angle::Radians(a).Normalized(), "0 gives the first angle, normalized"); Angle s = NormalizedAngleLerp(Angle::Radians(a), Angle::Radians(a), __vp_f32_range("t", 0, 1)); __vp_assert(s == Angle::Radians(a).Normalized(), "equal ends give the common angle"); __vp_reach("end");
}
VP_ENTRY(g11_normalized_angle_shorter_way) {
  float a = __vp_f32_range("a", 0, 6.28f), d = __vp_f32_range("d", -3.1f, 3.1f), t = __vp_f32_range("t", 0, 1); bool turn = __vp_bool("turn");
  float b = a + d + (turn ? kTwoPi : 0.0f);
  float r = NormalizedAngleLerp(Angle::Radians(a), Angle::Radians(b), t).ValueInRadians(), e = r - (a + t * d);
  bool ok = (std::fabs(e) <= 0.01f) | (std::fabs(e - kTwoPi) <= 0.01f) | (std::fabs(e + kTwoPi) <= 0.01f);
  __vp_assert(ok, "moves along the shorter direction"); __vp_reach("end");
}
VP_ENTRY(g11_inverse_ends) {
  float a = F("a"), b = F("b"), v = F("v"); __vp_assume(Fin(b - a)); float x = InverseLerp(a, b, a), y = InverseLerp(a, b, b);
  __vp_assert(InverseLerp(a, a, v) == 0, "0 for an empty interval"); __vp_assert(x == 0, "the first end maps to 0"); __vp_assert(a == b || y == 1, "the second end maps to 1"); __vp_reach("end");
}
VP_ENTRY(g11_inverse_inside) {
  float m = 1.5e38f, a = __vp_f32_range("a", -m, m), b = __vp_f32_range("b", -m, m), v = __vp_f32_range("v", -m, m); __vp_assume(((a <= v) & (v <= b)) | ((b <= v) & (v <= a)));
  float r = InverseLerp(a, b, v); __vp_assert(r >= 0, "values inside the interval are at least 0"); __vp_assert(r <= 1, "values inside the interval are at most 1"); __vp_reach("end");
}
VP_ENTRY(g11_inverse_grid) {
  float a = I("a", -4096, 4095), w = C("w", -9, 9), v = I("v", -4096, 4095); float r = InverseLerp(a, a + w, v);
  __vp_assert(r == (w == 0 ? 0 : (v - a) / w), "rescales linearly"); __vp_reach("end");
}
VP_ENTRY(g11_linear_map) {
  float a = I("a", -4096, 4095), b = I("b", -4096, 4095), c = D("c"), d = D("d"), v = F("v");
  __vp_assert(LinearMap(a, {a, b}, {c, d}) == c, "the first end maps to the first end"); __vp_assert(a == b || LinearMap(b, {a, b}, {c, d}) == d, "the second end maps to the second end");
  __vp_assert(LinearMap(v, {a, a}, {c, d}) == c, "an empty input range maps to the first end"); __vp_reach("end");
}
VP_ENTRY(g11_linear_map_grid) {
  float a = I("a", -512, 511), w = C("w", 0, 5), c = I("c", -512, 511), d = I("d", -512, 511), k = I("k", -4, 8); float s = 1; for (int i = 0; i < static_cast<int>(w); ++i) s *= 2;
  __vp_assert(LinearMap(a + k, {a, a + s}, {c, d}) == c + (d - c) * (k / s), "maps linearly"); __vp_assert(LinearMap(a + k, {a + s, a}, {d, c}) == c + (d - c) * (k / s), "reversed ranges map the same"); __vp_reach("end");
}
VP_ENTRY(g11_spiral_ends) {
  Vec a{__vp_f32("ax"), __vp_f32("ay")}, b{__vp_f32("bx"), __vp_f32("by")}; Vec x = SpiralLerp(a, b, 0.0f), y = SpiralLerp(a, b, 1.0f);
  __vp_assert(vp::same(x.x, a.x) & vp::same(x.y, a.y), "0 gives the first vector"); __vp_assert(vp::same(y.x, b.x) & vp::same(y.y, b.y), "1 gives the second vector"); __vp_reach("end");
}
VP_ENTRY(g11_spiral_magnitude) {
  int q = __vp_concretize(__vp_range("q", 0, 3)), p = __vp_concretize(__vp_range("p", 0, 3)); float m = C("m", 0, 2), n = C("n", 0, 2), t = C("t", 0, 4) * 0.25f;
  const float cx[4] = {1, 0, -1, 0}, cy[4] = {0, 1, 0, -1}; Vec r = SpiralLerp({m * cx[q], m * cy[q]}, {n * cx[p], n * cy[p]}, t);
  float want = m + (n - m) * t, len2 = r.x * r.x + r.y * r.y; __vp_assert((len2 <= want * want + 0.01f) & (len2 >= want * want - 0.01f), "the magnitude is interpolated"); __vp_reach("end");
}
VP_ENTRY(g11_spiral_direction) {
  int q = __vp_concretize(__vp_range("q", 0, 3)), p = __vp_concretize(__vp_range("p", 0, 3)); float m = C("m", 1, 3), n = C("n", 1, 3), t = vp::grid("t", -4, 8, 2); const float cx[4] = {1, 0, -1, 0}, cy[4] = {0, 1, 0, -1}; Vec r = SpiralLerp({m * cx[q], m * cy[q]}, {n * cx[p], n * cy[p]}, t);
  int d = (p - q + 4) % 4; double h = 1.5707963267948966, a = h * q, mag = m + (n - m) * (double)t; bool ok = false; for (int k = 0; k < 2; ++k) { double turn = d == 3 ? -h : d == 2 ? (k ? -2 * h : 2 * h) : h * d, x = mag * std::cos(a + t * turn), y = mag * std::sin(a + t * turn); ok = ok | ((std::fabs(r.x - x) < 1e-4) & (std::fabs(r.y - y) < 1e-4)); }
  __vp_assert(ok, "direction and (possibly negative) magnitude are interpolated and extrapolated"); __vp_reach("end");
}
VP_ENTRY(g11_barycentric) {
  float x1 = C("x1", -2, 2), y1 = C("y1", -2, 2), x2 = C("x2", 0, 2), y2 = C("y2", -2, 2); Point o{I("ox", -16, 15), I("oy", -16, 15)}, p{I("px", -16, 15), I("py", -16, 15)}; Triangle t{o, {o.x + x1, o.y + y1}, {o.x + x2, o.y + y2}};
  auto r = GetBarycentricCoordinates(t, p); float det = x1 * y2 - x2 * y1, n = std::fabs(det); __vp_assert(r.has_value() == (det != 0), "none exactly for degenerate triangles"); if (!r.has_value()) { __vp_reach("none"); return; }
  if (n == 1 || n == 2 || n == 4 || n == 8) { auto& b = *r; __vp_assert(b[0] + b[1] + b[2] == 1, "coordinates sum to 1"); __vp_assert(b[0] * t.p0.x + b[1] * t.p1.x + b[2] * t.p2.x == p.x, "x of the weighted corners"); __vp_assert(b[0] * t.p0.y + b[1] * t.p1.y + b[2] * t.p2.y == p.y, "y of the weighted corners"); __vp_reach("exact"); }
}
