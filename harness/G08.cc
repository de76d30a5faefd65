// SRC: ink/geometry/segment.cc
// SRC: ink/geometry/vec.cc
// SRC: ink/geometry/angle.cc
// SRC: ink/geometry/rect.cc
// SRC: ink/geometry/quad.cc
// SRC: ink/geometry/triangle.cc
// SRC: ink/geometry/internal/intersects_internal.cc
// OPT: budget=60
// BOUND: integer coordinates, degenerate shapes included: points and segments in [-4,3], two segments in [-2,1], rectangles with |coordinate| <= 4 against points and rectangles, [-1,2] against segments; triangles and sheared-free quads: point against triangles with one fixed corner (thorough: none fixed), segments in [-1,3] against four fixed triangles, rectangles in [-2,3] against two fixed triangles, triangle pairs with three fixed and two symbolic corners
// BOUND: quads without rotation, sheared by -1, 0 or 1, flat and point-like ones included: against segments in [-2,2], triangles with a free corner, 6 kinds of quads and 4 rectangles at any offset in [-4,4]; rotated quads are outside; PartitionedMesh arguments are M08 and M09
// ASSUME: none beyond IEEE-754 single precision
#include "geo_ref.h"
#include <cstdlib>

#include "ink/geometry/intersects.h"
using namespace ref;
using ink::Intersects; using ink::Segment; using ink::Triangle;
VP_ENTRY(g08_point_point) { float a = __vp_f32("a"), b = __vp_f32("b"), c = __vp_f32("c"), d = __vp_f32("d"); __vp_assert(Intersects(ink::Point{a, b}, ink::Point{c, d}) == ((a == c) & (b == d)), "points intersect exactly when equal"); __vp_reach("end"); }
VP_ENTRY(g08_point_segment) {
  P p = Pt("px", "py", -4, 3), a = Pt("ax", "ay", -4, 3), b = Pt("bx", "by", -4, 3); Segment s{F(a), F(b)}; bool want = On(p, a, b), got = Intersects(F(p), s);
  __vp_assert(got == want, "point on segment"); __vp_reach("end");
}
VP_ENTRY_T(g08_point_triangle_free) {
  P p = Pt("px", "py", -2, 1), a = Pt("ax", "ay", -2, 1), b = Pt("bx", "by", -2, 1), c = Pt("cx", "cy", -2, 1); Triangle t{F(a), F(b), F(c)}; bool want = InTri(p, a, b, c), got = vp::merged([&] { return Intersects(F(p), t); });
  __vp_assert(got == want, "point in triangle"); __vp_reach("end");
}
VP_ENTRY(g08_point_triangle) {
  P p = Pt("px", "py", -2, 2), a{-1, 0}, b = Pt("bx", "by", -2, 2), c = Pt("cx", "cy", -2, 2); Triangle t{F(a), F(b), F(c)}; bool want = InTri(p, a, b, c), got = vp::merged([&] { return Intersects(F(p), t); });
  __vp_assert(got == want, "point in triangle"); __vp_reach("end");
}
VP_ENTRY(g08_segment_segment) {
  P a = Pt("ax", "ay", -2, 1), b = Pt("bx", "by", -2, 1), c = Pt("cx", "cy", -2, 1), d = Pt("dx", "dy", -2, 1); bool want = SegSeg(a, b, c, d), got = vp::merged([&] { return Intersects(Segment{F(a), F(b)}, Segment{F(c), F(d)}); });
  __vp_assert(got == want, "segments share a point"); __vp_reach("end");
}
// A quad without rotation or shear is its axis-aligned rectangle (negative width or height flips it).
static void QuadAgainst(int w, int h) {
  P c = Pt("cx", "cy", -1, 1), p = Pt("px", "py", -3, 3); R r{c.x - std::abs(w) / 2, c.y - std::abs(h) / 2, c.x + std::abs(w) / 2, c.y + std::abs(h) / 2};
  ink::Quad q = ink::Quad::FromCenterAndDimensions(F(c), (float)w, (float)h); bool got = vp::merged([&] { return Intersects(q, F(p)); });
  __vp_assert(got == InRect(p, r), "quad contains point"); __vp_assert(vp::merged([&] { return Intersects(F(p), q); }) == got, "argument order does not matter"); __vp_reach("end");
}
VP_ENTRY(g08_quad_point) { QuadAgainst(2, 4); }
VP_ENTRY(g08_quad_point_negative_height) { QuadAgainst(4, -2); }
VP_ENTRY(g08_quad_point_flat) { QuadAgainst(4, 0); }
VP_ENTRY(g08_quad_segment) {
  P a = Pt("ax", "ay", -3, 3), b = Pt("bx", "by", -3, 3); ink::Quad q = ink::Quad::FromCenterAndDimensions({0, 0}, 2, -4); bool got = vp::merged([&] { return Intersects(q, Segment{F(a), F(b)}); });
  __vp_assert(got == SegRect(a, b, R{-1, -2, 1, 2}), "segment meets quad"); __vp_assert(vp::merged([&] { return Intersects(Segment{F(a), F(b)}, q); }) == got, "argument order does not matter"); __vp_reach("end");
}
VP_ENTRY(g08_quad_rect) {
  R r = Rc("rx0", "ry0", "rx1", "ry1", -3, 3); ink::Quad q = ink::Quad::FromCenterAndDimensions({0, 0}, 2, -4); bool got = vp::merged([&] { return Intersects(q, F(r)); });
  __vp_assert(got == ((r.x0 <= 1) & (-1 <= r.x1) & (r.y0 <= 2) & (-2 <= r.y1)), "rectangle meets quad"); __vp_reach("end");
}
static void SegmentAgainst(P c, P d, P e) {
  P a = Pt("ax", "ay", -1, 3), b = Pt("bx", "by", -1, 3); bool want = SegTri(a, b, c, d, e), got = vp::merged([&] { return Intersects(Segment{F(a), F(b)}, Triangle{F(c), F(d), F(e)}); });
  __vp_assert(got == want, "segment meets triangle"); __vp_reach("end");
}
VP_ENTRY(g08_rect_point) { R r = Rc("rx0", "ry0", "rx1", "ry1", -4, 4); P p = Pt("px", "py", -4, 4); bool got = Intersects(F(r), F(p)); __vp_assert((got == InRect(p, r)) & (got == Intersects(F(p), F(r))), "rectangle contains point"); __vp_reach("end"); }
VP_ENTRY(g08_rect_rect) { R r = Rc("rx0", "ry0", "rx1", "ry1", -4, 4), q = Rc("qx0", "qy0", "qx1", "qy1", -4, 4); bool got = Intersects(F(r), F(q)); __vp_assert(got == ((r.x0 <= q.x1) & (q.x0 <= r.x1) & (r.y0 <= q.y1) & (q.y0 <= r.y1)), "rectangles share a point"); __vp_reach("end"); }
VP_ENTRY(g08_rect_segment) { R r = Rc("rx0", "ry0", "rx1", "ry1", -1, 2); P a = Pt("ax", "ay", -2, 2), b = Pt("bx", "by", -2, 2); bool got = vp::merged([&] { return Intersects(F(r), Segment{F(a), F(b)}); }); __vp_assert(got == SegRect(a, b, r), "segment meets rectangle"); __vp_reach("end"); }
VP_ENTRY(g08_rect_triangle) { R r = Rc("rx0", "ry0", "rx1", "ry1", -2, 3); P a{0, 0}, b{2, -1}, c{1, 2}; bool got = vp::merged([&] { return Intersects(F(r), Triangle{F(a), F(b), F(c)}); }); __vp_assert(got == TriRect(a, b, c, r), "triangle meets rectangle"); __vp_reach("end"); }
VP_ENTRY(g08_rect_triangle_cw) { R r = Rc("rx0", "ry0", "rx1", "ry1", -2, 3); P a{0, 0}, b{-1, 2}, c{2, 2}; bool got = vp::merged([&] { return Intersects(F(r), Triangle{F(a), F(b), F(c)}); }); __vp_assert(got == TriRect(a, b, c, r), "triangle meets rectangle"); __vp_reach("end"); }
static void TriangleAgainst(P d, P e, P f) {
  P a = Pt("ax", "ay", -1, 2), b{0, 0}, c = Pt("cx", "cy", 0, 3); bool got = vp::merged([&] { return Intersects(Triangle{F(a), F(b), F(c)}, Triangle{F(d), F(e), F(f)}); });
  __vp_assert(got == TriTri(a, b, c, d, e, f), "triangles share a point"); __vp_reach("end");
}
VP_ENTRY(g08_triangle_triangle_ccw) { TriangleAgainst({1, 0}, {3, 0}, {2, 2}); }
VP_ENTRY(g08_triangle_triangle_cw) { TriangleAgainst({1, 1}, {1, 2}, {2, 2}); }
VP_ENTRY(g08_triangle_triangle_flat) { TriangleAgainst({-1, 1}, {1, 1}, {2, 1}); }
// one triangle inside of, across or outside of a larger one
static void Nested(bool swap, bool turn) {
  P o = Pt("ox", "oy", -8, 7), a{o.x, o.y}, b{o.x + 1, o.y}, c{o.x, o.y + 2}, d{-7, -6}, e{8, -5}, f{0, 8}; if (turn) { std::swap(b, c); std::swap(d, f); } Triangle s{F(a), F(b), F(c)}, l{F(d), F(e), F(f)}; bool got = vp::merged([&] { return swap ? Intersects(l, s) : Intersects(s, l); });
  __vp_assert(got == TriTri(a, b, c, d, e, f), "triangles share a point"); __vp_reach("end");
}
VP_ENTRY(g08_nested) { Nested(false, false); }
VP_ENTRY(g08_nested_swapped) { Nested(true, true); }
VP_ENTRY_T(g08_nested_turned) { Nested(false, true); }
VP_ENTRY_T(g08_nested_both) { Nested(true, false); }
VP_ENTRY(g08_segment_triangle_ccw) { SegmentAgainst({0, 0}, {2, 0}, {1, 2}); }
VP_ENTRY(g08_segment_triangle_cw) { SegmentAgainst({0, 0}, {0, 2}, {2, 1}); }
VP_ENTRY(g08_segment_triangle_flat) { SegmentAgainst({0, 0}, {2, 2}, {1, 1}); }
VP_ENTRY(g08_segment_triangle_point) { SegmentAgainst({1, 1}, {1, 1}, {1, 1}); }
// a sheared quad without rotation is a parallelogram with corners on the grid (even sizes, integer shear); width or height may be 0
struct Par { P a, b, c, d; ink::Quad q; };
static Par Pa(P c, int w, int h, int s) { int u = w / 2, v = std::abs(h) / 2, k = s * (std::abs(h) / 2); return {{c.x - u - k, c.y - v}, {c.x + u - k, c.y - v}, {c.x + u + k, c.y + v}, {c.x - u + k, c.y + v}, ink::Quad::FromCenterDimensionsRotationAndShear(F(c), (float)w, (float)h, ink::Angle(), (float)s)}; }
static void QuadAgainstSegment(int w, int h, int s) {
  P a = Pt("ax", "ay", -2, 2), b = Pt("bx", "by", -2, 2); Par q = Pa({0, 0}, w, h, s); bool got = vp::merged([&] { return Intersects(q.q, Segment{F(a), F(b)}); });
  __vp_assert(got == (SegTri(a, b, q.a, q.b, q.c) | SegTri(a, b, q.a, q.c, q.d)), "segment meets quad"); __vp_assert(vp::merged([&] { return Intersects(Segment{F(a), F(b)}, q.q); }) == got, "argument order does not matter"); __vp_reach("end");
}
VP_ENTRY(g08_quad_segment_flat) { QuadAgainstSegment(4, 0, 0); }
VP_ENTRY(g08_quad_segment_thin) { QuadAgainstSegment(0, 4, 1); }
VP_ENTRY(g08_quad_segment_point) { QuadAgainstSegment(0, 0, 1); }
VP_ENTRY(g08_quad_segment_sheared) { QuadAgainstSegment(2, -2, 1); }
static void QuadAgainstTriangle(int w, int h, int s) {
  P c = Pt("cx", "cy", -3, 3), a{0, 0}, b{2, -1}, d = Pt("dx", "dy", -1, 1); Par q = Pa(c, w, h, s); bool got = vp::merged([&] { return Intersects(q.q, Triangle{F(a), F(b), F(d)}); });
  __vp_assert(got == (TriTri(a, b, d, q.a, q.b, q.c) | TriTri(a, b, d, q.a, q.c, q.d)), "triangle meets quad"); __vp_assert(vp::merged([&] { return Intersects(Triangle{F(a), F(b), F(d)}, q.q); }) == got, "argument order does not matter"); __vp_reach("end");
}
VP_ENTRY(g08_quad_triangle_flat) { QuadAgainstTriangle(4, 0, 0); }
VP_ENTRY(g08_quad_triangle_thin) { QuadAgainstTriangle(0, 2, 1); }
VP_ENTRY(g08_quad_triangle) { QuadAgainstTriangle(2, -2, 1); }
static void QuadAgainstQuad(int w, int h, int s) {
  P c = Pt("cx", "cy", -4, 4); int i = (int)__vp_concretize(__vp_range("other", 0, 5)); static const int o[6][3] = {{4, 0, 0}, {0, 4, -1}, {2, -2, 1}, {0, 0, 0}, {4, 2, 0}, {2, 4, -1}}; Par p = Pa({0, 0}, w, h, s), q = Pa(c, o[i][0], o[i][1], o[i][2]); bool got = vp::merged([&] { return Intersects(p.q, q.q); });
  __vp_assert(got == (TriTri(p.a, p.b, p.c, q.a, q.b, q.c) | TriTri(p.a, p.b, p.c, q.a, q.c, q.d) | TriTri(p.a, p.c, p.d, q.a, q.b, q.c) | TriTri(p.a, p.c, p.d, q.a, q.c, q.d)), "quads share a point"); __vp_assert(vp::merged([&] { return Intersects(q.q, p.q); }) == got, "argument order does not matter"); __vp_reach("end");
}
VP_ENTRY(g08_quad_quad_flat) { QuadAgainstQuad(4, 0, 1); }
VP_ENTRY(g08_quad_quad_sheared) { QuadAgainstQuad(2, 4, 1); }
VP_ENTRY(g08_quad_quad_negative) { QuadAgainstQuad(4, -2, -1); }
VP_ENTRY(g08_quad_rect_sheared) {
  P c = Pt("cx", "cy", -4, 4); int i = (int)__vp_concretize(__vp_range("other", 0, 3)); static const int o[4][3] = {{4, 0, 0}, {0, 4, -1}, {2, -2, 1}, {0, 0, 0}}; Par q = Pa(c, o[i][0], o[i][1], o[i][2]); int k = (int)__vp_concretize(__vp_range("rect", 0, 2)); R r = k == 0 ? R{-1, -1, 2, 1} : k == 1 ? R{-2, 0, 1, 0} : R{1, 1, 1, 1}; bool got = vp::merged([&] { return Intersects(q.q, F(r)); });
  __vp_assert(got == (TriRect(q.a, q.b, q.c, r) | TriRect(q.a, q.c, q.d, r)), "rectangle meets quad"); __vp_assert(vp::merged([&] { return Intersects(F(r), q.q); }) == got, "argument order does not matter"); __vp_reach("end");
}
