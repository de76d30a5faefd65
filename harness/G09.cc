// SRC: ink/geometry/distance.cc ink/geometry/internal/intersects_internal.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/quad.cc ink/geometry/rect.cc ink/geometry/triangle.cc
// OPT: budget=200
// BOUND: each pair of points, segments, triangles, rectangles and quads (four of each, degenerate, flipped, sheared and rotated ones included) at every integer offset in [-5,5]x[-5,5] (quick: [-3,3]x[-3,3] for pairs with a triangle, rectangle or quad and no point)
// ASSUME: the result is compared with the exact distance of the closed shapes up to 1e-4; libm's hypot is evaluated as the host's
#include "ink/geometry/distance.h"

#include <type_traits>

#include "geo_ref.h"
#include "vp.h"
using namespace ink;
static int Pick(const char* n, int lo, int hi) { return lo + __vp_concretize(__vp_range(n, 0, hi - lo)); }
struct Poly { int n; float x[4], y[4]; bool exact = true; };
static Poly Of(Point p) { return {1, {p.x}, {p.y}}; }
static Poly Of(const Segment& s) { return {2, {s.start.x, s.end.x}, {s.start.y, s.end.y}}; }
static Poly Of(const Triangle& t) { return {3, {t.p0.x, t.p1.x, t.p2.x}, {t.p0.y, t.p1.y, t.p2.y}}; }
static Poly Of(const Rect& r) { return {4, {r.XMin(), r.XMax(), r.XMax(), r.XMin()}, {r.YMin(), r.YMin(), r.YMax(), r.YMax()}}; }
// corners from the parametrization: c +- (w/2) u +- (h/2) (shear u + n)
static Poly Of(const Quad& q) { float c = q.Rotation() == Angle() ? 1 : 0, s = c == 1 ? 0 : 1; float w = q.Width() / 2, h = q.Height() / 2, g = q.ShearFactor(); Poly r{4, {}, {}, c == 1}; for (int i = 0; i < 4; ++i) { float a = (i == 1 || i == 2) ? w : -w, b = i >= 2 ? h : -h; float lx = a + b * g, ly = b; r.x[i] = q.Center().x + lx * c - ly * s; r.y[i] = q.Center().y + lx * s + ly * c; } return r; }
static float P2(float px, float py, float ax, float ay, float bx, float by) { float ux = bx - ax, uy = by - ay, d = ux * ux + uy * uy, wx = px - ax, wy = py - ay, t = wx * ux + wy * uy; if (d == 0 || t <= 0) return wx * wx + wy * wy; if (t >= d) { float zx = px - bx, zy = py - by; return zx * zx + zy * zy; } float c = wx * uy - wy * ux; return c * c / d; }
static float Det(float ax, float ay, float bx, float by, float cx, float cy) { return (bx - ax) * (cy - ay) - (by - ay) * (cx - ax); }
static bool In(const Poly& p, float x, float y) { if (p.n < 3) return false; bool pos = false, neg = false; for (int i = 0; i < p.n; ++i) { int j = (i + 1) % p.n; float d = Det(p.x[i], p.y[i], p.x[j], p.y[j], x, y); pos |= d > 0; neg |= d < 0; } return (pos || neg) && !(pos && neg) && Det(p.x[0], p.y[0], p.x[1], p.y[1], p.x[2], p.y[2]) != 0; }
static bool Opp(float a, float b) { return (a > 0 && b < 0) || (a < 0 && b > 0); }
static float Ref2(const Poly& a, const Poly& b) { // squared distance of the closed shapes
  for (int i = 0; i < a.n; ++i) if (In(b, a.x[i], a.y[i])) return 0; for (int i = 0; i < b.n; ++i) if (In(a, b.x[i], b.y[i])) return 0; float best = 1e9f;
  for (int i = 0; i < a.n; ++i) { int j = (i + 1) % a.n; for (int k = 0; k < b.n; ++k) { int l = (k + 1) % b.n; if (Opp(Det(a.x[i], a.y[i], a.x[j], a.y[j], b.x[k], b.y[k]), Det(a.x[i], a.y[i], a.x[j], a.y[j], b.x[l], b.y[l])) && Opp(Det(b.x[k], b.y[k], b.x[l], b.y[l], a.x[i], a.y[i]), Det(b.x[k], b.y[k], b.x[l], b.y[l], a.x[j], a.y[j]))) return 0; float c[4] = {P2(a.x[i], a.y[i], b.x[k], b.y[k], b.x[l], b.y[l]), P2(a.x[j], a.y[j], b.x[k], b.y[k], b.x[l], b.y[l]), P2(b.x[k], b.y[k], a.x[i], a.y[i], a.x[j], a.y[j]), P2(b.x[l], b.y[l], a.x[i], a.y[i], a.x[j], a.y[j])}; for (float v : c) best = v < best ? v : best; } } return best;
}
template <class T> static T Make(int k, float x, float y) {
  auto p = [=](float a, float b) { return Point{a + x, b + y}; };
  if constexpr (std::is_same_v<T, Point>) return p(0, 0);
  else if constexpr (std::is_same_v<T, Segment>) { switch (k) { case 0: return {p(-1, -1), p(2, 0)}; case 1: return {p(0, 2), p(0, -1)}; case 2: return {p(1, 1), p(1, 1)}; default: return {p(2, -1), p(0, 1)}; } }
  else if constexpr (std::is_same_v<T, Triangle>) { switch (k) { case 0: return {p(0, 0), p(2, 0), p(1, 2)}; case 1: return {p(0, 0), p(-1, 2), p(2, 1)}; case 2: return {p(-1, -1), p(1, 1), p(0, 0)}; default: return {p(1, 0), p(1, 0), p(1, 0)}; } }
  else if constexpr (std::is_same_v<T, Rect>) { switch (k) { case 0: return Rect::FromTwoPoints(p(-1, 0), p(1, 2)); case 1: return Rect::FromTwoPoints(p(0, 0), p(3, 0)); case 2: return Rect::FromTwoPoints(p(1, 1), p(1, 1)); default: return Rect::FromTwoPoints(p(0, -2), p(1, 2)); } }
  else { switch (k) { case 0: return Quad::FromCenterDimensionsRotationAndShear(p(0, 0), 2, 2, Angle(), 1); case 1: return Quad::FromCenterDimensionsRotationAndShear(p(1, 0), 4, -2, Angle(), 0.5f); case 2: return Quad::FromCenterAndDimensions(p(0, 1), 0, 4); default: return Quad::FromCenterDimensionsAndRotation(p(0, 0), 4, 2, kQuarterTurn); } }
}
template <class A, class B> static void Pair(int ka, int kb, int r = 5) {
  int i = std::is_same_v<A, Point> ? 0 : Pick("a", 0, ka), j = std::is_same_v<B, Point> ? 0 : Pick("b", 0, kb), dx = Pick("dx", -r, r); int dy = __vp_range("dy", -r, r); A a = Make<A>(i, 0, 0); B b = Make<B>(j, (float)dx, (float)dy); Poly pa = Of(a), pb = Of(b);
  float d = Distance(a, b), e = Distance(b, a); float want = vp::merged([&] { return Ref2(pa, pb); });
  __vp_assert(d >= 0, "a distance is never negative"); bool exact = pa.exact && pb.exact; __vp_assert((d == e) | (!exact & (d - e <= 1e-6f) & (e - d <= 1e-6f)), "the order of the arguments does not matter"); float z = d * d - want, tol = 1e-4f + 1e-5f * want; __vp_assert((z <= tol) & (z >= -tol), "the distance of the closest points"); if (exact) __vp_assert((want != 0) | (d <= 1e-6f), "intersecting objects have no distance"); __vp_reach("end");
}
VP_ENTRY(g09_point_point) { float x = __vp_range("x", -300, 300); Point a{1, 2}, b{1 + x, 2}; float d = Distance(a, b); __vp_assert((d == (x < 0 ? -x : x)) & (Distance(b, a) == d), "points"); __vp_reach("end"); }
VP_ENTRY(g09_point_segment) { Pair<Point, Segment>(0, 3); }
VP_ENTRY(g09_point_triangle) { Pair<Point, Triangle>(0, 3); }
VP_ENTRY(g09_point_rect) { Pair<Point, Rect>(0, 3); }
VP_ENTRY(g09_point_quad) { Pair<Point, Quad>(0, 3); }
VP_ENTRY(g09_segment_segment) { Pair<Segment, Segment>(3, 3, 5); }
VP_ENTRY(g09_segment_triangle) { Pair<Segment, Triangle>(3, 3, 3); }
VP_ENTRY_T(g09_segment_triangle_far) { Pair<Segment, Triangle>(3, 3); }
VP_ENTRY(g09_segment_rect) { Pair<Segment, Rect>(3, 3, 3); }
VP_ENTRY_T(g09_segment_rect_far) { Pair<Segment, Rect>(3, 3); }
VP_ENTRY(g09_segment_quad) { Pair<Segment, Quad>(3, 3, 3); }
VP_ENTRY_T(g09_segment_quad_far) { Pair<Segment, Quad>(3, 3); }
VP_ENTRY(g09_triangle_triangle) { Pair<Triangle, Triangle>(3, 3, 3); }
VP_ENTRY_T(g09_triangle_triangle_far) { Pair<Triangle, Triangle>(3, 3); }
VP_ENTRY(g09_triangle_rect) { Pair<Triangle, Rect>(3, 3, 3); }
VP_ENTRY_T(g09_triangle_rect_far) { Pair<Triangle, Rect>(3, 3); }
VP_ENTRY(g09_triangle_quad) { Pair<Triangle, Quad>(3, 3, 3); }
VP_ENTRY_T(g09_triangle_quad_far) { Pair<Triangle, Quad>(3, 3); }
VP_ENTRY(g09_rect_rect) { Pair<Rect, Rect>(3, 3, 3); }
VP_ENTRY_T(g09_rect_rect_far) { Pair<Rect, Rect>(3, 3); }
VP_ENTRY(g09_rect_quad) { Pair<Rect, Quad>(3, 3, 3); }
VP_ENTRY_T(g09_rect_quad_far) { Pair<Rect, Quad>(3, 3); }
VP_ENTRY(g09_quad_quad) { Pair<Quad, Quad>(3, 3, 3); }
VP_ENTRY_T(g09_quad_quad_far) { Pair<Quad, Quad>(3, 3); }
