// SRC: ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/affine_transform.cc ink/geometry/quad.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc
// OPT: budget=200
// BOUND: first segment from the origin to any integer point in [-2,2]x[-2,2], second starting anywhere in [-3,3]x[-8,7] with any integer vector in [-2,2]x[-2,2] (degenerate, collinear and equal ones included), also scaled by 2^12 and 2^-12; projections and barycentric coordinates of any point in [-4,3]x[-8,7]
// ASSUME: ratios are compared with exact rational arithmetic up to 1e-5
#include "ink/geometry/internal/algorithms.h"

#include "geo_ref.h"
#include "vp.h"
using namespace ink; using namespace ink::geometry_internal;
static int Pick(const char* n, int lo, int hi) { return lo + __vp_concretize(__vp_range(n, 0, hi - lo)); }
static bool Near(float a, float b, float e = 1e-5f) { float d = a - b; return (d <= e) & (d >= -e); }
static float Clamp0(int num, int den) { return num < 0 ? 0.f : (float)num / den; }
static void Segments(int scale_exp) {
  int ux = Pick("ux", -2, 2), uy = Pick("uy", -2, 2), vx = Pick("vx", -2, 2), vy = Pick("vy", -2, 2), wx = Pick("wx", -3, 3); int wy = __vp_range("wy", -8, 7); float k = scale_exp == 0 ? 1.f : scale_exp > 0 ? 4096.f : 1 / 4096.f;
  Segment a{{0, 0}, {ux * k, uy * k}}, b{{wx * k, wy * k}, {(wx + vx) * k, (wy + vy) * k}}; int det = ux * vy - uy * vx, uu = ux * ux + uy * uy, vv = vx * vx + vy * vy;
  auto got = SegmentIntersectionRatio(a, b); auto point = SegmentIntersection(a, b); auto line = UniqueLineIntersectionRatio(a, b);
  __vp_assert(line.has_value() == (det != 0), "two lines have one common point exactly when they are not parallel"); __vp_assert(point.has_value() == got.has_value(), "the common point goes with the ratios");
  ref::P A{0, 0}, B{ux, uy}, C{wx, wy}, D{wx + vx, wy + vy}; bool want = ref::SegSeg(A, B, C, D); __vp_assert(got.has_value() == want, "a ratio is given exactly when the segments share a point");
  if (det != 0) { int s = det < 0 ? -1 : 1, n = (wx * vy - wy * vx) * s, m = (wx * uy - wy * ux) * s, d = det * s; __vp_assert(Near(line->first * d, (float)n, 1e-4f) & Near(line->second * d, (float)m, 1e-4f), "ratios on two lines"); if (got) __vp_assert(Near(got->first * d, (float)n) & Near(got->second * d, (float)m), "ratios of crossing segments"); }
  else if (got) {
    int s0 = wx * ux + wy * uy, e0 = (wx + vx) * ux + (wy + vy) * uy, s1 = -wx * vx - wy * vy, e1 = (ux - wx) * vx + (uy - wy) * vy; int lo = s0 < e0 ? s0 : e0, hi = s1 < e1 ? s1 : e1;
    float fa = uu ? Clamp0(lo, uu) : 0.f, fb = vv ? Clamp0(hi, vv) : 0.f; __vp_assert(Near(got->first, fa) & Near(got->second, fb), "smallest ratios of overlapping segments");
  }
  if (got) { __vp_assert((got->first >= 0) & (got->first <= 1) & (got->second >= 0) & (got->second <= 1), "ratios lie on the segments"); Point p = a.Lerp(got->first), q = b.Lerp(got->second); if (det != 0 || !uu || !vv) __vp_assert(Near(p.x, q.x, 1e-5f * k) & Near(p.y, q.y, 1e-5f * k), "both ratios give the same point"); if (point) __vp_assert(Near(p.x, point->x, 1e-5f * k) & Near(p.y, point->y, 1e-5f * k), "the common point is at the first ratio"); }
  __vp_reach(got ? "meet" : "apart");
}
VP_ENTRY(g10_segments) { Segments(0); }
VP_ENTRY_T(g10_segments_large) { Segments(1); }
VP_ENTRY_T(g10_segments_small) { Segments(-1); }
VP_ENTRY(g10_projection_vector) { // the vector from a point to its projection is orthogonal to the segment and reaches its line
  int ux = Pick("ux", -3, 3), uy = Pick("uy", -3, 3), px = Pick("px", -4, 3); int py = __vp_range("py", -8, 7); Segment s{{1, -1}, {1.f + ux, uy - 1.f}}; auto v = VectorFromPointToSegmentProjection({(float)px, (float)py}, s); int uu = ux * ux + uy * uy; __vp_assert(v.has_value() == (uu != 0), "a degenerate segment has no direction"); if (v) { __vp_assert(Near(v->x * ux + v->y * uy, 0, 1e-4f), "orthogonal to the segment"); float x = px + v->x - 1, y = py + v->y + 1; __vp_assert(Near(x * uy - y * ux, 0, 1e-4f), "reaches the line"); auto r = s.Project({(float)px, (float)py}); __vp_assert(r.has_value(), "projection"); int n = (px - 1) * ux + (py + 1) * uy; __vp_assert(Near(*r * uu, (float)n, 1e-4f), "projection ratio"); } __vp_reach("end");
}
VP_ENTRY(g10_barycentric) {
  int bx = Pick("bx", -2, 2), by = Pick("by", -2, 2), cx = Pick("cx", -2, 2), cy = Pick("cy", -2, 2), px = Pick("px", -2, 2); int py = __vp_range("py", -8, 7); Triangle t{{0, 1}, {(float)bx, (float)by}, {(float)cx, (float)cy}}; auto g = GetBarycentricCoordinates(t, {(float)px, (float)py}); ref::P a{0, 1}, b{bx, by}, c{cx, cy}, p{px, py}; int d = ref::Det(a, b, c);
  __vp_assert(g.has_value() == (d != 0), "coordinates exist exactly for triangles that are not flat"); if (g) __vp_assert(Near((*g)[0] * d, (float)ref::Det(b, c, p), 1e-4f) & Near((*g)[1] * d, (float)ref::Det(c, a, p), 1e-4f) & Near((*g)[2] * d, (float)ref::Det(a, b, p), 1e-4f), "coordinates are the shares of area opposite the corners"); __vp_reach("end");
}
VP_ENTRY(g10_maps) { // interpolation and its inverse, over every finite or infinite value
  float a = __vp_f32("a"), b = __vp_f32("b"); __vp_assert(Lerp(a, a, 0.25f) == a || !(a - a == 0), "interpolating between equal values"); __vp_assert(__vp_same(InverseLerp(a, a, b), 0.f) || !(a - a == 0), "an empty interval maps to zero");
  float lo = vp::grid("lo", -8, 7), w = vp::grid("w", 1, 8), i = vp::grid("i", 0, 8); if (w != 0) { float v = lo + i; bool in = i <= w; if (in) { float r = InverseLerp(lo, lo + w, v); __vp_assert((r >= 0) & (r <= 1) & ((i == 0) == (r == 0)) & ((i == w) == (r == 1)), "ends map to 0 and 1"); } } __vp_reach("end");
}
