// SRC: ink/geometry/internal/circle.cc ink/geometry/vec.cc ink/geometry/angle.cc
// OPT: budget=100
// BOUND: arc angles for chord heights: all floats; arcs: radii 1/2 to 64 and chord heights from 1/64 to 128 in powers of two, start and arc angles at 64 and 25 steps over [-6, 6], up to 40 points each (and one arc at the cap of 32768 points); arcs of length zero: all floats; tangents and containment: integer centers in [-8,7] and radii in [0,5]
// ASSUME: trigonometric results are compared with tolerance 1e-3 of the radius (the accuracy of float angles)
#include <cmath>
#include <vector>

#include "ink/geometry/internal/circle.h"
#include "vp.h"
using namespace ink; using geometry_internal::Circle;
static int C(const char* n, int lo, int hi) { return (int)__vp_concretize(__vp_range(n, lo, hi)); }
static bool Fin(float f) { return (f - f) == 0; }
VP_ENTRY(g14_chord_angle) {
  float r = __vp_f32("r"), h = __vp_f32("h"); __vp_assume(Fin(r) & (r >= 0) & (h == h)); float a = Circle({0, 0}, r).GetArcAngleForChordHeight(h).ValueInRadians(); __vp_assert((a >= 0) & (a <= 6.283186f), "in [0, 2pi]"); __vp_assert(!(h <= 0) | (a == 0), "non-positive heights give zero"); __vp_reach("end");
}
VP_ENTRY(g14_chord_value) { int i = C("i", -1, 6); float r = std::ldexp(1.f, i), h = vp::grid("h", 0, 63, 5) * r; double a = Circle({3, -2}, r).GetArcAngleForChordHeight(h).ValueInRadians(); __vp_assert(std::fabs(r * (1 - std::cos(a / 2)) - h) < 1e-3 * r, "the arc has the chord height"); __vp_assert(!(h > r) | (a > 3.1415), "larger than a half circle"); __vp_reach("end"); }
static void Arc(float r, float h, float start, float arc, int cap) {
  Point c{3, -2}; std::vector<Point> p{{7, 8}}; Circle(c, r).AppendArcToPolyline(Angle::Radians(start), Angle::Radians(arc), h, p); __vp_assert((p[0].x == 7) & (p[0].y == 8), "earlier points are kept"); int n = (int)p.size() - 2; __vp_assert(n >= 1, "at least two points"); if (n < 1) return; __vp_assert(n <= cap, "bounded");
  auto sag = [&](double a) { a = std::fabs(a) / 2; return a >= 3.14159265358979 ? 2.0 * r : r * (1 - std::cos(a)); }; double e = 1e-4 * r + 1e-3 * h; if (n < 32767) __vp_assert(sag((double)arc / n) <= h + e, "the chord height is not exceeded"); __vp_assert(n == 1 || sag((double)arc / (n - 1)) >= h - e, "no more points than needed");
  for (int i = 0; i <= n && i < 64; ++i) { double a = (double)start + (double)arc * i / n; __vp_assert((std::fabs(p[i + 1].x - (c.x + r * std::cos(a))) < 1e-3 * r) & (std::fabs(p[i + 1].y - (c.y + r * std::sin(a))) < 1e-3 * r), "evenly spaced points on the circle"); }
  double a = (double)start + arc; __vp_assert((std::fabs(p[n + 1].x - (c.x + r * std::cos(a))) < 1e-3 * r) & (std::fabs(p[n + 1].y - (c.y + r * std::sin(a))) < 1e-3 * r), "ends at the end angle");
}
static void Arcs(int i) { int j = C("j", -6, 7); if (j < i - 8) return; Arc(std::ldexp(1.f, i), std::ldexp(1.f, j), 1, vp::grid("arc", -12, 12, 1), 200); __vp_reach("end"); }
VP_ENTRY(g14_arc_unit) { Arcs(C("i", -1, 0)); }
VP_ENTRY(g14_arc_small) { Arcs(C("i", 1, 2)); }
VP_ENTRY(g14_arc_middle) { Arcs(C("i", 3, 4)); }
VP_ENTRY(g14_arc_large) { Arcs(C("i", 5, 6)); }
VP_ENTRY(g14_arc_start) { float r = 2, h = 0.125f; Arc(r, h, vp::grid("start", -32, 31, 2), C("arc", -3, 3) * 2, 200); __vp_reach("end"); }
VP_ENTRY(g14_arc_cap) { Arc(1 << 20, std::ldexp(1.f, -C("h", 6, 7)), 1, C("arc", 5, 6), 32767); __vp_reach("end"); }
VP_ENTRY(g14_arc_zero) { float r = __vp_f32("r"), h = __vp_f32("h"); __vp_assume(Fin(r) & (r >= 0) & (h > 0)); std::vector<Point> p; Circle({0, 0}, r).AppendArcToPolyline(Angle(), Angle::Radians(C("neg", 0, 1) ? -0.f : 0.f), h, p); __vp_assert(p.size() == 2, "an arc of length zero has two points"); if (p.size() == 2) __vp_assert((p[0].x == r) & (p[1].x == r) & (p[0].y == 0) & (p[1].y == 0), "both at the start"); __vp_reach("end"); }
VP_ENTRY(g14_point_circle) { Point c{__vp_f32("x"), __vp_f32("y")}; __vp_assume(Fin(c.x) & Fin(c.y)); std::vector<Point> p; Circle(c, 0).AppendArcToPolyline(Angle::Radians(__vp_f32("a")), Angle::Radians(__vp_f32("b")), 0.5f, p); __vp_assert(p.size() == 2 && ((p[0].x == c.x) & (p[0].y == c.y) & (p[1].x == c.x) & (p[1].y == c.y)), "a point-like circle gives its center twice"); __vp_reach("end"); }
VP_ENTRY(g14_bad_height) { float h = __vp_f32("h"); __vp_assume(!(h > 0)); std::vector<Point> p; __vp_expect_check_fail(); Circle({0, 0}, 1).AppendArcToPolyline(Angle(), Angle::Radians(1), h, p); __vp_assert(false, "heights that are not positive are refused"); }
VP_ENTRY(g14_bad_radius) { float r = __vp_f32("r"); __vp_assume(!(r >= 0)); __vp_expect_check_fail(); Circle c({0, 0}, r); __vp_assert(false, "radii that are not at least zero are refused"); }
static void Tangents(int r, int s) {
  int y = C("y", -8, 7), x = __vp_range("x", -8, 7); Circle a({1, 2}, (float)r), b({1.f + (float)x, 2.f + y}, (float)s); int d = x * x + y * y; auto t = vp::merged([&] { return a.GetTangentAngles(b).has_value(); }); __vp_assert(t == (d > (r - s) * (r - s)), "tangents exist exactly when neither circle contains the other"); __vp_assert(vp::merged([&] { return a.Contains(b); }) == ((r >= s) & (d <= (r - s) * (r - s))), "containment"); if (!(d > (r - s) * (r - s))) return;
  auto g = *a.GetTangentAngles(b); float gr = a.GuaranteedRightTangentAngle(b).ValueInRadians(), l = g.left.ValueInRadians(), q = g.right.ValueInRadians(); __vp_assert(std::fabs(gr - q) < 1e-5f || std::fabs(std::fabs(gr - q) - 6.2831853f) < 1e-5f, "the right tangent alone is the same"); __vp_assert((l > -3.1415928f) & (l <= 3.1415928f) & (q > -3.1415928f) & (q <= 3.1415928f), "normalized");
  for (int k = 0; k < 2; ++k) { double w = k ? q : l, c = std::cos(w), e = std::sin(w); double vx = x + (s - r) * c, vy = y + (s - r) * e; __vp_assert(std::fabs(vx * c + vy * e) < 1e-3, "the tangent is perpendicular to the radius"); double side = x * e - y * c; __vp_assert(k ? side < 1e-3 : side > -1e-3, "on its side of the direction of travel"); }
  __vp_reach("tangents");
}
VP_ENTRY(g14_tangents_equal) { Tangents(2, 2); }
VP_ENTRY(g14_tangents_larger) { Tangents(C("r", 1, 5), 0); }
VP_ENTRY(g14_tangents_smaller) { Tangents(1, C("s", 2, 5)); }
VP_ENTRY(g14_tangents_mixed) { Tangents(5, C("s", 1, 4)); }
