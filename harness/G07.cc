// SRC: ink/geometry/segment.cc
// SRC: ink/geometry/vec.cc
// SRC: ink/geometry/angle.cc
// SRC: ink/geometry/internal/algorithms.cc
// BOUND: equality, end points, projection existence: every float; finiteness of interpolation: every finite end point up to 2^126 in magnitude and every ratio in [0,1], and the largest finite floats of either sign at ratios k/4096; bounding box: coordinates up to 1000, tolerance 0.001; projection values: direction components in [-6,6], integer points in [-512,511]
// ASSUME: none beyond IEEE-754 round-to-nearest single precision
#include <cmath>
#include <limits>
#include <optional>
#include "ink/geometry/internal/algorithms.h"
#include "ink/geometry/segment.h"
#include "vp.h"
using ink::Point; using ink::Segment; using ink::Vec;
namespace {
float I(const char* n, int lo, int hi) { return static_cast<float>(__vp_range(n, lo, hi)); }
float C(const char* n, int lo, int hi) { return static_cast<float>(static_cast<int>(__vp_concretize(__vp_range(n, lo, hi)))); }
bool Fin(float x) { return std::fabs(x) <= std::numeric_limits<float>::max(); }
Segment Any() { return {{__vp_f32("sx"), __vp_f32("sy")}, {__vp_f32("ex"), __vp_f32("ey")}}; }
}
VP_ENTRY(g07_ends) {
  Segment s = Any(); __vp_assume(Fin(s.start.x) & Fin(s.start.y) & Fin(s.end.x) & Fin(s.end.y));
  Point a = s.Lerp(0.0f), b = s.Lerp(1.0f); __vp_assert((a.x == s.start.x) & (a.y == s.start.y), "ratio 0 is the start"); __vp_assert((b.x == s.end.x) & (b.y == s.end.y), "ratio 1 is the end"); __vp_reach("end");
}
VP_ENTRY(g07_equality) {
  Segment s = Any(), t{{__vp_f32("tx"), __vp_f32("ty")}, {__vp_f32("ux"), __vp_f32("uy")}};
  bool e = (s.start.x == t.start.x) & (s.start.y == t.start.y) & (s.end.x == t.end.x) & (s.end.y == t.end.y);
  __vp_assert((s == t) == e, "equal exactly for equal starts and equal ends"); __vp_assert((s != t) == !e, "inequality negates equality");
  Vec v = s.Vector(); __vp_assert(vp::same(v.x, s.end.x - s.start.x) & vp::same(v.y, s.end.y - s.start.y), "vector from start to end");
  __vp_assert(vp::same(s.Length(), v.Magnitude()), "length"); __vp_reach("end");
}
VP_ENTRY(g07_lerp_finite) {
  float m = 8.5e37f, a = __vp_f32_range("a", -m, m), b = __vp_f32_range("b", -m, m), t = __vp_f32_range("t", 0, 1);
  Segment s{{a, 0}, {b, 0}}, u{{0, a}, {0, b}}; __vp_assert(Fin(s.Lerp(t).x), "x is finite"); __vp_assert(Fin(u.Lerp(t).y), "y is finite"); __vp_reach("end");
}
VP_ENTRY(g07_lerp_extreme) {
  float m = std::numeric_limits<float>::max(), t = I("t", 0, 4096) / 4096; int k = __vp_concretize(__vp_range("signs", 0, 3));
  float a = k & 1 ? -m : m, b = k & 2 ? -m : m; Segment s{{a, b}, {b, a}}; Point p = s.Lerp(t); __vp_assert(Fin(p.x), "x is finite"); __vp_assert(Fin(p.y), "y is finite"); __vp_reach("end");
}
VP_ENTRY(g07_midpoint) {
  Segment s = Any(); __vp_assume(Fin(s.start.x) & Fin(s.start.y) & Fin(s.end.x) & Fin(s.end.y)); Point p = s.Midpoint();
  __vp_assert(Fin(p.x) & Fin(p.y), "the midpoint is finite"); __vp_assert((p.x == s.start.x * 0.5f + s.end.x * 0.5f) & (p.y == s.start.y * 0.5f + s.end.y * 0.5f), "the midpoint is the mean"); __vp_reach("end");
}
VP_ENTRY(g07_lerp_box) {
  float a = __vp_f32_range("a", -1000, 1000), b = __vp_f32_range("b", -1000, 1000), t = __vp_f32_range("t", 0, 1); __vp_assume(a <= b);
  float x = Segment{{a, 0}, {b, 0}}.Lerp(t).x, y = Segment{{0, b}, {0, a}}.Lerp(t).y;
  __vp_assert((x >= a - 0.001f) & (x <= b + 0.001f), "x is between the end points"); __vp_assert((y >= a - 0.001f) & (y <= b + 0.001f), "y is between the end points"); __vp_reach("end");
}
VP_ENTRY(g07_lerp_grid) {
  Segment s{{I("sx", -4096, 4095), I("sy", -4096, 4095)}, {I("ex", -4096, 4095), I("ey", -4096, 4095)}}; float r = I("r", -16, 24) * 0.125f; Point p = s.Lerp(r);
  __vp_assert(p.x == s.start.x + (s.end.x - s.start.x) * r, "x moves linearly"); __vp_assert(p.y == s.start.y + (s.end.y - s.start.y) * r, "y moves linearly"); __vp_reach("end");
}
VP_ENTRY(g07_project_exists) {
  Segment s = Any(); Point p{__vp_f32("px"), __vp_f32("py")}; auto r = s.Project(p);
  bool eq = s.start == s.end; Vec v = s.Vector(); float m = v.x * v.x + v.y * v.y;
  __vp_assert(r.has_value() == !(eq || m <= 0), "a projection exists exactly when the segment has a measurable length"); __vp_reach("end");
}
VP_ENTRY(g07_project_ends) {
  Segment s{{__vp_f32_range("sx", -1e9f, 1e9f), __vp_f32_range("sy", -1e9f, 1e9f)}, {__vp_f32_range("ex", -1e9f, 1e9f), __vp_f32_range("ey", -1e9f, 1e9f)}};
  auto a = s.Project(s.start), b = s.Project(s.end); __vp_assert(a.has_value() == b.has_value(), "existence does not depend on the point");
  if (!a.has_value()) { __vp_reach("none"); return; }
  __vp_assert(*a == 0, "the start projects to 0"); __vp_assert(*b == 1, "the end projects to 1"); __vp_reach("some");
}
VP_ENTRY(g07_project_grid) {
  float vx = C("vx", -6, 6), vy = C("vy", -6, 6); Point a{I("ax", -512, 511), I("ay", -512, 511)}, p{I("px", -512, 511), I("py", -512, 511)}; Segment s{a, {a.x + vx, a.y + vy}};
  auto r = s.Project(p); float d = vx * vx + vy * vy; __vp_assert(r.has_value() == (d != 0), "exists exactly for a segment with length"); if (!r.has_value()) { __vp_reach("none"); return; }
  __vp_assert(*r == ((p.x - a.x) * vx + (p.y - a.y) * vy) / d, "the ratio along the segment of the closest point"); __vp_reach("some");
}
VP_ENTRY(g07_project_on_line) {
  float vx = C("vx", -3, 3), vy = C("vy", -3, 3); Point a{I("ax", -512, 511), I("ay", -512, 511)}; Segment s{a, {a.x + vx, a.y + vy}}; __vp_assume((vx != 0) | (vy != 0));
  float k = I("k", -32, 31); auto r = s.Project({a.x + k * vx, a.y + k * vy}); __vp_assert(r.has_value() && *r == k, "inverts interpolation"); __vp_reach("some");
}
VP_ENTRY(g07_vector_to_projection) {
  float vx = C("vx", -4, 4), vy = C("vy", -4, 4); Point a{I("ax", -64, 63), I("ay", -64, 63)}, p{I("px", -64, 63), I("py", -64, 63)}; Segment s{a, {a.x + vx, a.y + vy}};
  auto r = ink::geometry_internal::VectorFromPointToSegmentProjection(p, s); float d = vx * vx + vy * vy; __vp_assert(r.has_value() == (d != 0), "exists exactly for a segment with length"); if (!r.has_value()) { __vp_reach("none"); return; }
  float k = (vx * (a.y - p.y) - vy * (a.x - p.x)) / d; __vp_assert((r->x == k * -vy) & (r->y == k * vx), "perpendicular, reaching the line"); __vp_reach("some");
}
