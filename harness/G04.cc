// SRC: ink/geometry/envelope.cc
// SRC: ink/geometry/rect.cc
// SRC: ink/geometry/quad.cc
// SRC: ink/geometry/segment.cc
// SRC: ink/geometry/triangle.cc
// SRC: ink/geometry/vec.cc
// SRC: ink/geometry/angle.cc
// BOUND: every finite float coordinate; every sequence of 2 additions (3 in the thorough tier) of points, segments, triangles, rectangles, envelopes and resets; quads unrotated with integer dimensions
#include <cmath>
#include <vector>
#include "ink/geometry/envelope.h"
#include "vp.h"
using ink::Envelope; using ink::Point; using ink::Quad; using ink::Rect; using ink::Segment; using ink::Triangle;
namespace {
float Fin(const char* n) { float x = __vp_f32(n); __vp_assume(std::isfinite(x)); return x; }
Point P() { float x = Fin("x"); return Point{x, Fin("y")}; }
struct Model { bool any = false; float x0 = 0, y0 = 0, x1 = 0, y1 = 0;
  void Add(Point p) { if (!any) { any = true; x0 = x1 = p.x; y0 = y1 = p.y; return; } x0 = p.x < x0 ? p.x : x0; x1 = x1 < p.x ? p.x : x1; y0 = p.y < y0 ? p.y : y0; y1 = y1 < p.y ? p.y : y1; } };
void Check(const Envelope& e, const Model& m) {
  __vp_assert(e.IsEmpty() == !m.any && e.AsRect().has_value() == m.any, "empty exactly when nothing was added");
  if (!m.any || e.IsEmpty()) return;
  const Rect& r = *e.AsRect();
  __vp_assert((r.XMin() == m.x0) & (r.YMin() == m.y0) & (r.XMax() == m.x1) & (r.YMax() == m.y1), "minimal bounding box of everything added");
}
void Step(Envelope& e, Model& m, bool construct) {
  switch (__vp_concretize(__vp_range("op", 0, 6))) {
    case 0: { Point p = P(); if (construct) e = Envelope(p); else e.Add(p); m.Add(p); __vp_reach("point"); break; }
    case 1: { Segment s{P(), P()}; if (construct) e = Envelope(s); else e.Add(s); m.Add(s.start); m.Add(s.end); __vp_reach("segment"); break; }
    case 2: { Triangle t{P(), P(), P()}; if (construct) e = Envelope(t); else e.Add(t); m.Add(t.p0); m.Add(t.p1); m.Add(t.p2); __vp_reach("triangle"); break; }
    case 3: { Rect r = Rect::FromTwoPoints(P(), P()); if (construct) e = Envelope(r); else e.Add(r); m.Add({r.XMin(), r.YMin()}); m.Add({r.XMax(), r.YMax()}); __vp_reach("rect"); break; }
    case 4: { Envelope o; Point a = P(), b = P(); o.Add(a); o.Add(b); e.Add(o); m.Add(a); m.Add(b); __vp_reach("envelope"); break; }
    case 5: { Envelope o; e.Add(o); __vp_reach("empty envelope"); break; }
    default: e.Reset(); m = Model{}; __vp_reach("reset"); break;
  }
}
void Sequence(int n) { Envelope e; Model m; Check(e, m); for (int i = 0; i < n; ++i) { Step(e, m, false); Check(e, m); } }
}  // namespace
VP_ENTRY(g04_construct) { Envelope e; Model m; Step(e, m, true); Check(e, m); }
VP_ENTRY(g04_sequence) { Sequence(2); }
VP_ENTRY_T(g04_sequence3) { Sequence(3); }
VP_ENTRY(g04_order) {  // the same shapes in another order give the same box
  Point a = P(), b = P(), c = P(), d = P(); Envelope e, f; Segment s{a, b};
  e.Add(s); e.Add(c); e.Add(d); f.Add(d); f.Add(c); f.Add(s);
  __vp_assert(e.AsRect()->XMin() == f.AsRect()->XMin() && e.AsRect()->XMax() == f.AsRect()->XMax() && e.AsRect()->YMin() == f.AsRect()->YMin() && e.AsRect()->YMax() == f.AsRect()->YMax(), "order does not matter");
  __vp_reach("end");
}
VP_ENTRY(g04_ranges) {
  std::vector<Point> v; int n = __vp_concretize(__vp_range("n", 0, 3)); Model m; for (int i = 0; i < n; ++i) { v.push_back(P()); m.Add(v.back()); }
  Envelope a(v), b(v.begin(), v.end()), c; c.Add(v); Check(a, m); Check(b, m); Check(c, m); Envelope d; d.Add(v.begin(), v.end()); Check(d, m); __vp_reach("end");
}
VP_ENTRY(g04_quad) {
  auto g = [](const char* n) { return static_cast<float>(__vp_range(n, -4096, 4095)); };
  Quad q = Quad::FromCenterDimensionsRotationAndShear({g("cx"), g("cy")}, static_cast<float>(__vp_range("w", 0, 4095)), g("h"), ink::Angle(), static_cast<float>(__vp_range("shear", -8, 7)) * 0.25f);
  Envelope e; Model m; bool before = __vp_bool("before"); if (before) { Point p = P(); e.Add(p); m.Add(p); }
  auto c = q.Corners(); for (Point p : c) m.Add(p);
  bool construct = __vp_bool("construct"); if (construct && !before) e = Envelope(q); else e.Add(q);
  Check(e, m); __vp_reach("end");
}
