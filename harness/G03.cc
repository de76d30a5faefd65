// SRC: ink/geometry/rect.cc
// SRC: ink/geometry/segment.cc
// SRC: ink/geometry/vec.cc
// SRC: ink/geometry/angle.cc
// BOUND: every finite float for bounds and points in two-point construction, resizing, joins, containment, center and size queries; integers up to 2^16 for offset, scale, translate and aspect ratio (exact in float)
#include <cmath>
#include "ink/geometry/point.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/segment.h"
#include "vp.h"
using ink::Point; using ink::Rect; using ink::Segment; using ink::Vec;
static float Fin(const char* n) { float x = __vp_f32(n); __vp_assume(std::isfinite(x)); return x; }
static Rect AnyRect() { return Rect::FromTwoPoints({Fin("x1"), Fin("y1")}, {Fin("x2"), Fin("y2")}); }
static Point FinPoint() { float x = Fin("px"); return Point{x, Fin("py")}; }
static bool Ordered(const Rect& r) { return (r.XMin() <= r.XMax()) & (r.YMin() <= r.YMax()); }
static bool Is(const Rect& r, float a, float b, float c, float d) { return (r.XMin() == a) & (r.YMin() == b) & (r.XMax() == c) & (r.YMax() == d); }
static bool Same(const Rect& a, const Rect& b) { return Is(a, b.XMin(), b.YMin(), b.XMax(), b.YMax()); }
static float Lo(float a, float b) { return b < a ? b : a; }
static float Hi(float a, float b) { return a < b ? b : a; }
static bool In(const Rect& r, Point p) { return (r.XMin() <= p.x) & (p.x <= r.XMax()) & (r.YMin() <= p.y) & (p.y <= r.YMax()); }
VP_ENTRY(g03_two_points) {
  Point a{Fin("ax"), Fin("ay")}, b{Fin("bx"), Fin("by")}; Rect r = Rect::FromTwoPoints(a, b);
  __vp_assert(Ordered(r), "ordered"); __vp_assert(Is(r, Lo(a.x, b.x), Lo(a.y, b.y), Hi(a.x, b.x), Hi(a.y, b.y)), "smallest box of the two points");
  __vp_assert(r.Contains(a) && r.Contains(b), "contains its defining points");
  Rect d; __vp_assert(Is(d, 0, 0, 0, 0), "default rectangle");
  __vp_reach("end");
}
VP_ENTRY(g03_center_dimensions) {
  Point c = FinPoint(); float w = Fin("w"), h = Fin("h"); __vp_assume(w >= 0 && h >= 0);
  Rect r = Rect::FromCenterAndDimensions(c, w, h);
  __vp_assert(Ordered(r), "ordered"); __vp_assert(In(r, c), "contains its center");
  __vp_assert(Is(r, c.x - w / 2, c.y - h / 2, c.x + w / 2, c.y + h / 2), "half the size to either side");
  __vp_reach("end");
}
VP_ENTRY(g03_center_dimensions_bad) {
  Point c = FinPoint(); float w = __vp_f32("w"), h = __vp_f32("h"); __vp_assume(!(w >= 0 && h >= 0));
  __vp_expect_check_fail(); Rect r = Rect::FromCenterAndDimensions(c, w, h); __vp_assert(false, "negative or NaN dimensions must fail");
}
VP_ENTRY(g03_set_size_bad) {
  Rect r = AnyRect(); float w = __vp_f32("w"); __vp_assume(!(w >= 0)); bool horizontal = __vp_bool("horizontal");
  __vp_expect_check_fail(); if (horizontal) r.SetWidth(w); else r.SetHeight(w); __vp_assert(false, "negative or NaN size must fail");
}
VP_ENTRY(g03_resize) {
  Rect r = AnyRect(), o = r; float v = Fin("v"); int k = __vp_concretize(__vp_range("side", 0, 3));
  switch (k) {
    case 0: r.ResizeSettingXMinTo(v); __vp_assert(Is(r, v, o.YMin(), Hi(o.XMax(), v), o.YMax()), "x min"); break;
    case 1: r.ResizeSettingYMinTo(v); __vp_assert(Is(r, o.XMin(), v, o.XMax(), Hi(o.YMax(), v)), "y min"); break;
    case 2: r.ResizeSettingXMaxTo(v); __vp_assert(Is(r, Lo(o.XMin(), v), o.YMin(), v, o.YMax()), "x max"); break;
    default: r.ResizeSettingYMaxTo(v); __vp_assert(Is(r, o.XMin(), Lo(o.YMin(), v), o.XMax(), v), "y max"); break;
  }
  __vp_assert(Ordered(r), "ordered"); __vp_reach("end");
}
VP_ENTRY(g03_join) {
  Rect r = AnyRect(), o = r, q = Rect::FromTwoPoints({Fin("qx1"), Fin("qy1")}, {Fin("qx2"), Fin("qy2")}); Point p = FinPoint();
  r.Join(p); __vp_assert(Is(r, Lo(o.XMin(), p.x), Lo(o.YMin(), p.y), Hi(o.XMax(), p.x), Hi(o.YMax(), p.y)), "join with a point");
  __vp_assert(r.Contains(p) && r.Contains(o) && Ordered(r), "joined with a point");
  r = o; r.Join(q); __vp_assert(Is(r, Lo(o.XMin(), q.XMin()), Lo(o.YMin(), q.YMin()), Hi(o.XMax(), q.XMax()), Hi(o.YMax(), q.YMax())), "join with a rectangle");
  __vp_assert(r.Contains(q) && r.Contains(o) && Ordered(r), "joined with a rectangle"); __vp_reach("end");
}
VP_ENTRY(g03_contains) {
  Rect r = AnyRect(), q = Rect::FromTwoPoints({Fin("qx1"), Fin("qy1")}, {Fin("qx2"), Fin("qy2")}); Point p = FinPoint();
  __vp_assert(r.Contains(p) == In(r, p), "point containment is inclusive");
  __vp_assert(r.Contains(q) == (In(r, {q.XMin(), q.YMin()}) & In(r, {q.XMax(), q.YMax()})), "rectangle containment is inclusive"); __vp_reach("end");
}
VP_ENTRY(g03_queries) {
  Rect r = AnyRect();
  auto c = r.Corners(); float a = r.XMin(), b = r.YMin(), x = r.XMax(), y = r.YMax();
  __vp_assert(c[0] == Point{a, b} && c[1] == Point{x, b} && c[2] == Point{x, y} && c[3] == Point{a, y}, "corners");
  __vp_assert(r.Width() >= 0 && r.Height() >= 0 && r.Width() == x - a && r.Height() == y - b, "width and height");
  __vp_assert(!(r.Area() < 0), "area"); int k = __vp_concretize(__vp_range("edge", 0, 3));
  Segment e = r.GetEdge(k); __vp_assert(e.start == c[k] && e.end == c[(k + 1) % 4], "edges join neighbouring corners"); __vp_reach("end");
}
VP_ENTRY(g03_edge_bad) {
  Rect r = AnyRect(); int k = __vp_i32("edge"); __vp_assume(k < 0 || k > 3);
  __vp_expect_check_fail(); Segment e = r.GetEdge(k); __vp_assert(false, "edge index out of range must fail");
}
VP_ENTRY(g03_halves_are_finite) {
  Rect r = AnyRect(); float w = r.SemiWidth(), h = r.SemiHeight(); Point c = r.Center();
  __vp_assert(std::isfinite(w) && w >= 0 && std::isfinite(h) && h >= 0, "finite non-negative half size");
  __vp_assert(std::isfinite(c.x) && std::isfinite(c.y), "finite center"); __vp_reach("end");
}
VP_ENTRY(g03_center_inside) {  // tiny subnormal bounds can round away
  Rect r = AnyRect(); __vp_assume((r.XMin() == 0 || std::fabs(r.XMin()) > 1e-30f) && (r.XMax() == 0 || std::fabs(r.XMax()) > 1e-30f));
  float c = r.Center().x; __vp_assert(r.XMin() <= c && c <= r.XMax(), "the center lies inside"); __vp_reach("end");
}
VP_ENTRY(g03_infinite_center) {
  Rect r; r.ResizeSettingXMinTo(-INFINITY); r.ResizeSettingXMaxTo(INFINITY); float y = Fin("y"), y2 = Fin("y2"); r.ResizeSettingYMinTo(y); r.ResizeSettingYMaxTo(y2);
  __vp_assert(r.Center().x == 0 && std::isfinite(r.Center().y), "an infinite range is centered on 0"); __vp_reach("end");
}
VP_ENTRY(g03_set_size_keeps_center) {  // huge bounds must not move the center
  Rect r = AnyRect(); float w = Fin("w"); __vp_assume(w >= 0); bool horizontal = __vp_bool("horizontal");
  Point c = r.Center(); Rect o = r;
  if (horizontal) { r.SetWidth(w); __vp_assert(r.XMin() == c.x - w / 2 && r.XMax() == c.x + w / 2, "width set around the center"); __vp_assert(r.YMin() == o.YMin() && r.YMax() == o.YMax(), "height kept"); }
  else { r.SetHeight(w); __vp_assert(r.YMin() == c.y - w / 2 && r.YMax() == c.y + w / 2, "height set around the center"); __vp_assert(r.XMin() == o.XMin() && r.XMax() == o.XMax(), "width kept"); }
  __vp_assert(Ordered(r), "ordered"); __vp_reach("end");
}
// On integers every operation below is exact.
static float G(const char* n) { return static_cast<float>(__vp_range(n, -65536, 65535)); }
static float S(const char* n) { return static_cast<float>(__vp_range(n, -1024, 1023)); }
static Rect SmallRect() { return Rect::FromTwoPoints({S("x1"), S("y1")}, {S("x2"), S("y2")}); }
static Rect GridRect() { return Rect::FromTwoPoints({G("x1"), G("y1")}, {G("x2"), G("y2")}); }
VP_ENTRY(g03_offset) {
  Rect r = GridRect(), o = r; float h = G("h"), v = G("v");
  bool same = __vp_bool("same"); if (same) { v = h; r.Offset(h); } else r.Offset(h, v);
  bool cx = o.XMax() + h < o.XMin() - h, cy = o.YMax() + v < o.YMin() - v; Point c = o.Center();
  __vp_assert(Ordered(r), "ordered");
  __vp_assert(cx ? (r.XMin() == c.x) & (r.XMax() == c.x) : (r.XMin() == o.XMin() - h) & (r.XMax() == o.XMax() + h), "horizontal offset");
  __vp_assert(cy ? (r.YMin() == c.y) & (r.YMax() == c.y) : (r.YMin() == o.YMin() - v) & (r.YMax() == o.YMax() + v), "vertical offset"); __vp_reach("end");
}
VP_ENTRY(g03_offset_order) {  // any magnitudes that stay finite
  Rect r = AnyRect(); float h = Fin("h"), v = Fin("v");
  __vp_assume(std::fabs(r.XMin()) < 1e38f && std::fabs(r.XMax()) < 1e38f && std::fabs(r.YMin()) < 1e38f && std::fabs(r.YMax()) < 1e38f && std::fabs(h) < 1e38f && std::fabs(v) < 1e38f);
  r.Offset(h, v); __vp_assert(Ordered(r), "never inverted"); __vp_reach("end");
}
VP_ENTRY(g03_translate) {
  Rect r = GridRect(), o = r; Vec d{G("dx"), G("dy")}; r.Translate(d);
  __vp_assert(Is(r, o.XMin() + d.x, o.YMin() + d.y, o.XMax() + d.x, o.YMax() + d.y), "translate");
  float w = o.XMax() - o.XMin(), h = o.YMax() - o.YMin(), t = G("t");
  r = o; r.TranslateSettingXMinTo(t); __vp_assert(Is(r, t, o.YMin(), t + w, o.YMax()), "translate x min"); r = o; r.TranslateSettingYMinTo(t); __vp_assert(Is(r, o.XMin(), t, o.XMax(), t + h), "translate y min");
  r = o; r.TranslateSettingXMaxTo(t); __vp_assert(Is(r, t - w, o.YMin(), t, o.YMax()), "translate x max"); r = o; r.TranslateSettingYMaxTo(t); __vp_assert(Is(r, o.XMin(), t - h, o.XMax(), t), "translate y max");
  r = o; r.SetCenter({t, d.y}); __vp_assert(Is(r, t - w / 2, d.y - h / 2, t + w / 2, d.y + h / 2), "set center"); __vp_reach("end");
}
VP_ENTRY(g03_translate_order) {
  Rect r = AnyRect(); Vec d{Fin("dx"), Fin("dy")}; r.Translate(d); __vp_assert(Ordered(r), "never inverted"); __vp_reach("end");
}
VP_ENTRY(g03_set_center_order) { Rect q = AnyRect(); q.SetCenter(FinPoint()); __vp_assert(Ordered(q), "never inverted"); __vp_reach("end"); }
VP_ENTRY(g03_scale) {
  Rect r = GridRect(), o = r; int k = __vp_concretize(__vp_range("sx", 0, 8)); float sx = static_cast<float>(k) * 0.25f, sy = static_cast<float>((k * 5 + 2) % 9) * 0.25f;
  bool same = __vp_bool("same"); if (same) { sy = sx; r.Scale(sx); } else r.Scale(sx, sy);
  __vp_assert(r.Width() == o.Width() * sx && r.Height() == o.Height() * sy, "scaled size"); __vp_assert(r.Center() == o.Center(), "scaled about the center"); __vp_assert(Ordered(r), "ordered"); __vp_reach("end");
}
VP_ENTRY(g03_scale_bad) {
  Rect r = GridRect(); float sx = __vp_f32("sx"), sy = __vp_f32("sy"); __vp_assume(!(sx >= 0 && sy >= 0));
  __vp_expect_check_fail(); r.Scale(sx, sy); __vp_assert(false, "negative or NaN scale must fail");
}
VP_ENTRY(g03_aspect) {  // power-of-two ratios keep everything exact
  Rect r = SmallRect(); __vp_assume(r.Height() > 0); int k = __vp_concretize(__vp_range("log2", -2, 2)); float a = std::ldexp(1.0f, k); float w = r.Width(), h = r.Height();
  bool wide = a * h > w; __vp_reach(wide ? "wider" : "taller");
  Rect c = r.ContainingRectWithAspectRatio(a), i = r.InteriorRectWithAspectRatio(a);
  __vp_assert(c.Center() == r.Center() && i.Center() == r.Center(), "same center");
  __vp_assert(c.Contains(r), "the containing rectangle contains it"); __vp_assert(r.Contains(i), "the interior rectangle is inside");
  __vp_assert(wide ? (c.Height() == h) & (c.Width() == a * h) : (c.Width() == w) & (c.Height() * a == w), "containing size");
  __vp_assert(wide ? (i.Width() == w) & (i.Height() * a == w) : (i.Height() == h) & (i.Width() == a * h), "interior size");
}
VP_ENTRY(g03_aspect_bad) {
  Rect r = GridRect(); float a = __vp_f32("a"); bool containing = __vp_bool("containing"); __vp_assume(containing ? !(a > 0) : !(a >= 0));
  __vp_expect_check_fail(); if (containing) r.ContainingRectWithAspectRatio(a); else r.InteriorRectWithAspectRatio(a); __vp_assert(false, "bad aspect ratio must fail");
}
VP_ENTRY(g03_ratio) {
  Rect r = AnyRect(); __vp_assume(r.Height() != 0); __vp_assert(vp::same(r.AspectRatio(), (r.XMax() - r.XMin()) / (r.YMax() - r.YMin())), "aspect ratio"); __vp_reach("end");
}
VP_ENTRY(g03_ratio_bad) {
  Rect r = AnyRect(); __vp_assume(r.YMin() == r.YMax()); __vp_expect_check_fail(); r.AspectRatio(); __vp_assert(false, "no aspect ratio without height");
}
VP_ENTRY(g03_center_unbounded) {  // a range without a finite center is centered on 0, each axis on its own
  float inf = INFINITY, a = __vp_f32("a"), b = __vp_f32("b"); __vp_assume(std::isfinite(a) & std::isfinite(b)); __vp_assume(a <= b); __vp_assume((a == 0) | (std::fabs(a) > 1e-30f)); __vp_assume((b == 0) | (std::fabs(b) > 1e-30f)); int k = __vp_concretize(__vp_range("k", 0, 3)); bool swap = __vp_concretize(__vp_range("swap", 0, 1)); float lo = k & 1 ? -inf : a, hi = k & 2 ? inf : b; Rect r = swap ? Rect::FromTwoPoints({-inf, lo}, {inf, hi}) : Rect::FromTwoPoints({lo, -inf}, {hi, inf}); Point c = r.Center(); float u = swap ? c.x : c.y, v = swap ? c.y : c.x;
  __vp_assert(u == 0, "the unbounded axis"); if (k == 3) __vp_assert(v == 0, "both unbounded"); else if (k == 1) __vp_assert(v == -inf, "unbounded below"); else if (k == 2) __vp_assert(v == inf, "unbounded above"); else __vp_assert((v >= a) & (v <= b), "the other axis is centered as usual"); __vp_reach("end");
}
