// SRC: ink/strokes/internal/brush_tip_shape.cc ink/strokes/internal/circular_extrusion_helpers.cc ink/strokes/internal/brush_tip_extrusion.cc ink/strokes/internal/rounded_polygon.cc ink/strokes/internal/brush_tip_state.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/circle.cc ink/geometry/intersects.cc ink/geometry/internal/intersects_internal.cc ink/geometry/distance.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// OPT: budget=150
// OPT: total=500
// BOUND: shapes: 6 widths or heights up to 8, the other on 16 half-integer steps (one case 64 widths), corner roundings in quarters, rotations 0 and 0.75 (thorough: 8), slants 0, +-0.5 and pi/2, pinches in halves; pairs: 12 tips (round, rectangular, triangular, trapezoid, line, point, flat), second tip at 8 positions in x and 2 in y (thorough: 16 and 5, all pairs); far positions 1e5 to 1e12; results within 1e-3 of touching are not compared; tips flattened to a line by a slant of pi/2 are checked for aborts and the upper bound only
#include <cmath>
#include <vector>

#include "ink/strokes/internal/brush_tip_extrusion.h"
#include "ink/strokes/internal/brush_tip_shape.h"
#include "tip_hull.h"
#include "vp.h"
using namespace ink; using namespace ink::strokes_internal;
static int C(const char* n, int lo, int hi) { return (int)__vp_concretize(__vp_range(n, lo, hi)); }
static BrushTipState St(float x, float y, float w, float h, float round, float rot = 0, float slant = 0, float pinch = 0) { BrushTipState s; s.position = {x, y}; s.width = w; s.height = h; s.percent_radius = round; s.rotation = Angle::Radians(rot); s.slant = Angle::Radians(slant); s.pinch = pinch; return s; }
static bool Fin(float f) { return (f - f) == 0; }
static const float kHalfPi = 1.57079637f, slants[4] = {0, 0.5f, -0.5f, kHalfPi};
// the documented circles, before rotation
static void Shape(const BrushTipState& s, float eps) {
  BrushTipShape t(s, eps); double hw = s.width / 2.0, hh = s.height / 2.0, r = s.percent_radius * std::fmin(hw, hh); if (r < std::fmax(eps, 1.17549435e-38)) r = 0; double x = hw - r, y = hh - r; if (2 * x < std::fmax(eps, 1.17549435e-38)) x = 0; if (2 * y < std::fmax(eps, 1.17549435e-38)) y = 0;
  double sx = -std::sin((double)s.slant.ValueInRadians()), sy = std::cos((double)s.slant.ValueInRadians()), c = std::cos((double)s.rotation.ValueInRadians()), e = std::sin((double)s.rotation.ValueInRadians()), px = (1 - (double)s.pinch) * x; std::vector<HullD> w; bool clear = true;
  double least = std::fmax(eps, 1.17549435e-38); auto add = [&](double a, double b) { double lx = a + b * sx, ly = b * sy; bool same = false; for (auto& q : w) { double d = std::hypot(q.x - lx, q.y - ly); if (std::fabs(d - 0.999 * least) < 1e-5) clear = false; if (d < 0.999 * least) same = true; } if (!same) w.push_back({lx, ly}); };
  if (x == 0 && y == 0) w.push_back({0, 0}); else if (y == 0) { add(x, 0); add(-x, 0); } else if (x == 0) { add(0, y); add(0, -y); } else if (2 * px < least) { add(x, y); add(-x, y); add(0, -y); } else { add(x, y); add(-x, y); add(-px, -y); add(px, -y); }
  auto k = t.PerimeterCircles(); __vp_assert(k.size() >= 1 && k.size() <= 4, "one to four circles"); __vp_assert((t.Center().x == s.position.x) & (t.Center().y == s.position.y), "centered at the tip"); for (auto& q : k) __vp_assert(std::fabs(q.Radius() - r) < 1e-5, "documented radius");
  Rect b = t.Bounds(); double lo[2] = {1e30, 1e30}, hi[2] = {-1e30, -1e30}; for (auto& q : k) { lo[0] = std::fmin(lo[0], (double)q.Center().x - q.Radius()); lo[1] = std::fmin(lo[1], (double)q.Center().y - q.Radius()); hi[0] = std::fmax(hi[0], (double)q.Center().x + q.Radius()); hi[1] = std::fmax(hi[1], (double)q.Center().y + q.Radius()); } __vp_assert((std::fabs(b.XMin() - lo[0]) < 1e-4) & (std::fabs(b.XMax() - hi[0]) < 1e-4) & (std::fabs(b.YMin() - lo[1]) < 1e-4) & (std::fabs(b.YMax() - hi[1]) < 1e-4), "bounds of the circles");
  if (!clear) return; __vp_assert(k.size() == w.size(), "documented number of circles"); if (k.size() == w.size()) for (size_t i = 0; i < w.size(); ++i) { double gx = s.position.x + c * w[i].x - e * w[i].y, gy = s.position.y + e * w[i].x + c * w[i].y; __vp_assert((std::fabs(k[i].Center().x - gx) < 1e-4) & (std::fabs(k[i].Center().y - gy) < 1e-4), "documented centers"); }
  for (int i = 0; i < (int)k.size(); ++i) { __vp_assert(t.GetNextPerimeterIndexCcw(i) == (i + 1) % (int)k.size(), "next counter-clockwise"); __vp_assert(t.GetNextPerimeterIndexCw(t.GetNextPerimeterIndexCcw(i)) == i, "clockwise is the inverse"); } __vp_reach("shape");
}
static float Size(int i) { static const float s[6] = {0, 0.0625f, 1, 2, 3.5f, 8}; return s[i]; }
static void Shapes(int sl, int rots = 1) { Shape(St(5, -3, Size(C("w", 0, 5)), vp::grid("h", 0, 15, 1), C("round", 0, 4) * 0.25f, C("rot", 0, rots) * 0.75f, slants[sl], C("pinch", 0, 2) * 0.5f), 0.125f); }
VP_ENTRY(k05_upright) { Shapes(0); }
VP_ENTRY(k05_slanted) { Shapes(1); }
VP_ENTRY(k05_slanted_back) { Shapes(2); }
VP_ENTRY(k05_flat) { Shapes(3); }
VP_ENTRY_T(k05_all_upright) { Shapes(0, 7); }
VP_ENTRY_T(k05_all_slanted) { Shapes(1, 7); }
VP_ENTRY_T(k05_all_slanted_back) { Shapes(2, 7); }
VP_ENTRY_T(k05_all_flat) { Shapes(3, 7); }
VP_ENTRY(k05_width) { Shape(St(1, 2, vp::grid("w", 0, 63, 4), C("h", 0, 2) * 0.75f, C("round", 0, 2) * 0.5f, 0.5f, 0, C("pinch", 0, 2) * 0.5f), C("eps", 0, 2) * 0.125f); }
// any size: never a size below the threshold
VP_ENTRY(k05_threshold) { float w = __vp_f32_range("w", 0, 1), e = __vp_f32_range("e", 0, 1); BrushTipShape t(St(0, 0, w, w, 1), e); auto k = t.PerimeterCircles(); __vp_assert(k.size() == 1 || e > w / 2 || w < 1e-37f, "a round tip is one circle"); __vp_assert((k[0].Radius() == 0) | (k[0].Radius() >= e), "radius zero or at least the threshold"); __vp_reach("end"); }
VP_ENTRY(k05_invalid) { float v = __vp_f32("v"); int which = C("which", 0, 3); BrushTipState s = St(0, 0, 1, 1, 0.5f); if (which == 0) s.width = v; if (which == 1) s.height = v; if (which == 2) s.percent_radius = v; if (which == 3) s.pinch = v; __vp_assume(which < 2 ? v < 0 : (v < 0) | (v > 1)); __vp_expect_check_fail(); BrushTipShape t(s, 0.125f); __vp_assert(false, "invalid tip states are refused"); }
static BrushTipState Family(int i, float x, float y) {
  switch (i) { case 0: return St(x, y, 2, 2, 1); case 1: return St(x, y, 4, 2, 0); case 2: return St(x, y, 4, 3, 0.5f, 0.75f); case 3: return St(x, y, 4, 4, 0, 0, 0, 1); case 4: return St(x, y, 4, 4, 0.25f, 2, 0.5f, 0.5f); case 5: return St(x, y, 4, 0, 0, 1); case 6: return St(x, y, 1, 4, 1, 0.25f); case 7: return St(x, y, 8, 2, 0, 0, kHalfPi, 0.5f); case 8: return St(x, y, 0, 0, 0); case 9: return St(x, y, 8, 8, 0, 0.5f); case 10: return St(x, y, 6, 6, 1); default: return St(x, y, 1, 1, 0, 0.5f, 0, 0.5f); }
}
static void Contains(int i) { int j = C("j", 0, 11); BrushTipShape a(Family(i, 0, 0), 0.125f), b(Family(j, vp::grid("x", -8, 7, 1) * 0.5f, C("y", -4, 3) * 0.5f), 0.125f); double room = Hull(a).Room(Hull(b)); bool c = a.Contains(b); __vp_assert(!(room > 1e-4) | c, "contains what lies within"); __vp_assert(!(room < -1e-4) | !c, "does not contain what sticks out"); if (j != 7) __vp_assert(b.Contains(b), "contains itself"); __vp_reach("end"); }
VP_ENTRY(k05_in_circle) { Contains(0); Contains(10); }
VP_ENTRY(k05_in_rect) { Contains(1); }
VP_ENTRY(k05_in_rounded) { Contains(2); }
VP_ENTRY(k05_in_triangle) { Contains(3); }
VP_ENTRY(k05_in_trapezoid) { Contains(4); }
VP_ENTRY(k05_in_line) { Contains(5); }
VP_ENTRY(k05_in_stadium) { Contains(6); }
VP_ENTRY(k05_in_flat) { Contains(7); }
VP_ENTRY(k05_in_large) { Contains(9); }
// the outline of one tip
static const double kDir[8][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {.6, .8}, {-.8, .6}, {-.28, -.96}, {.96, -.28}};
static double Top(const ExtrusionPoints& e, double nx, double ny) { double b = -1e300; for (auto* v : {&e.left, &e.right}) for (auto& p : *v) b = std::fmax(b, p.x * nx + p.y * ny); return b; }
static void Convex(const ExtrusionPoints& e) { std::vector<Point> p; for (auto q : e.left) p.push_back(q); for (size_t i = e.right.size(); i-- > 0;) p.push_back(e.right[i]); std::vector<Point> d; for (auto q : p) if (d.empty() || std::hypot((double)d.back().x - q.x, (double)d.back().y - q.y) > 1e-4) d.push_back(q); size_t n = d.size(); for (size_t i = 0; n > 2 && i < n; ++i) { Point a = d[i], b = d[(i + 1) % n], c = d[(i + 2) % n]; double cr = ((double)b.x - a.x) * ((double)c.y - b.y) - ((double)b.y - a.y) * ((double)c.x - b.x); __vp_assert(cr < 2e-3, "the outline runs clockwise around the tip"); } }
static void Whole(int i) {
  float h = 0.0625f; BrushTipShape a(Family(i, vp::grid("x", 0, 7, 1), C("y", -1, 0)), 0.125f); int dir = C("dir", 0, 7); Vec f{(float)kDir[dir][0], (float)kDir[dir][1]}; ExtrusionPoints e; e.left.push_back({9, 9}); BrushTipShape::AppendWholeShapeExtrusionPoints(a, h, f, e); __vp_assert((e.left[0].x == 9) & (e.left[0].y == 9), "earlier points are kept"); e.left.erase(e.left.begin()); Hull o(a);
  for (auto& k : kDir) { double t = Top(e, k[0], k[1]), w = o.Support(k[0], k[1]); __vp_assert((t < w + 1e-4) & (t > w - h - 1e-3), "the points outline the tip within the chord height"); } Convex(e); bool sides = true; for (auto& q : e.left) sides = sides & (Vec::Determinant(f, q - a.Center()) > -1e-4f); for (auto& q : e.right) sides = sides & (Vec::Determinant(f, q - a.Center()) < 1e-4f); __vp_assert(sides, "left and right of the direction"); __vp_reach("end");
}
VP_ENTRY(k05_whole_round) { int i = C("i", 0, 2); Whole(i == 0 ? 0 : i == 1 ? 6 : 10); }
VP_ENTRY(k05_whole_polygon) { int i = C("i", 0, 3); Whole(i == 0 ? 1 : i == 1 ? 3 : i == 2 ? 9 : 11); }
VP_ENTRY(k05_whole_rounded) { Whole(C("i", 0, 1) ? 2 : 4); }
// two tips
static void Tangent(const Hull& a, const Hull& b, const geometry_internal::Circle& p, const geometry_internal::Circle& q, bool left) { auto t = p.GetTangentAngles(q); __vp_assert(t.has_value(), "there is a tangent"); if (!t) return; double w = left ? t->left.ValueInRadians() : t->right.ValueInRadians(), nx = std::cos(w), ny = std::sin(w), top = std::fmax(a.Support(nx, ny), b.Support(nx, ny)); __vp_assert((double)p.Center().x * nx + (double)p.Center().y * ny + p.Radius() > top - 2e-3, "no circle sticks out over the tangent"); }
static void Pair(int i, int j, float x, float y) {
  typedef BrushTipExtrusion::TangentQuality TQ; BrushTipExtrusion ea(Family(i, 0, 0), 0.125f), eb(Family(j, x, y), 0.125f); const BrushTipShape &a = ea.GetShape(), &b = eb.GetShape(); Hull p(a), q(b); double ab = p.Room(q), ba = q.Room(p); int t = vp::merged([&] { return (int)BrushTipExtrusion::EvaluateTangentQuality(ea, eb, 0.0125f); }); bool in = t == (int)TQ::kNoTangentsFirstContainsSecond, out = t == (int)TQ::kNoTangentsSecondContainsFirst;
  __vp_assert(!(ab > 1e-3) | in | (ba > -1e-3), "the first contains the second"); __vp_assert(!(ba > 1e-3) | out | (ab > -1e-3), "the second contains the first"); __vp_assert(!in | (ab > -1e-3), "not contained in the first"); __vp_assert(!out | (ba > -1e-3), "not contained in the second"); if (in | out) return;
  auto g = BrushTipShape::GetTangentCircleIndices(a, b); int n = (int)p.c.size(), m = (int)q.c.size(); __vp_assert((g.left.first >= 0) & (g.left.first < n) & (g.right.first >= 0) & (g.right.first < n) & (g.left.second >= 0) & (g.left.second < m) & (g.right.second >= 0) & (g.right.second < m), "indices of circles"); __vp_reach("pair");
  // the second tip lies clearly ahead of the first: the tangents are those of their common hull
  double l = std::hypot(x, y), fx = x / l, fy = y / l; bool flat = i == 7 || j == 7, ahead = !flat && l > 0 && p.Support(fx, fy) + 0.1 < -q.Support(-fx, -fy), good = !flat && t == (int)TQ::kGoodTangents; if (ahead) { __vp_assert(good, "good tangents"); __vp_reach("ahead"); } if (good) { Tangent(p, q, a.PerimeterCircles()[g.left.first], b.PerimeterCircles()[g.left.second], true); Tangent(p, q, a.PerimeterCircles()[g.right.first], b.PerimeterCircles()[g.right.second], false); }
  float h = 0.0625f; ExtrusionPoints e; BrushTipShape::AppendStartcapExtrusionPoints(a, b, h, e); BrushTipShape::AppendEndcapExtrusionPoints(a, b, h, e); for (auto& k : kDir) { double t = Top(e, k[0], k[1]), w = std::fmax(p.Support(k[0], k[1]), q.Support(k[0], k[1])); __vp_assert(t < w + 1e-3, "the caps lie within both tips' outline"); if (good) __vp_assert(t > w - h - 1e-3, "the caps outline both tips within the chord height"); } if (ahead) Convex(e);
}
static void Pairs(int i) { static const int js[6] = {0, 3, 9, 2, 5, 7}; Pair(i, js[C("j", 0, 2) + (i == 0 || i == 8 ? 3 : 0)], vp::grid("x", -4, 3, 0) * 2, C("y", 0, 1) * 3); }
static void AllPairs(int i) { Pair(i, C("j", 0, 11), vp::grid("x", -8, 7, 0), C("y", -2, 2) * 2); }
VP_ENTRY(k05_pair_circle) { Pairs(0); }
VP_ENTRY_T(k05_allpairs_circle) { AllPairs(0); }
VP_ENTRY(k05_pair_rect) { Pairs(1); }
VP_ENTRY_T(k05_allpairs_rect) { AllPairs(1); }
VP_ENTRY(k05_pair_rounded) { Pairs(2); }
VP_ENTRY_T(k05_allpairs_rounded) { AllPairs(2); }
VP_ENTRY(k05_pair_triangle) { Pairs(3); }
VP_ENTRY_T(k05_allpairs_triangle) { AllPairs(3); }
VP_ENTRY(k05_pair_trapezoid) { Pairs(4); }
VP_ENTRY_T(k05_allpairs_trapezoid) { AllPairs(4); }
VP_ENTRY(k05_pair_line) { Pairs(5); }
VP_ENTRY_T(k05_allpairs_line) { AllPairs(5); }
VP_ENTRY(k05_pair_flat) { Pairs(7); }
VP_ENTRY_T(k05_allpairs_flat) { AllPairs(7); }
VP_ENTRY(k05_pair_point) { Pairs(8); }
VP_ENTRY_T(k05_allpairs_point) { AllPairs(8); }
// anywhere: what cannot be told apart is one circle, and nothing aborts
VP_ENTRY(k05_far) {
  static const float at[4] = {1e5f, 1.6e7f, 2e8f, 1e12f}; float x = at[C("at", 0, 3)]; BrushTipState s = St(x, C("y", 0, 1) ? 0 : x, 8, vp::grid("h", 0, 1, 0) * 4 + 2, C("round", 0, 1) * 0.5f, 0.5f, slants[C("sl", 0, 3)], C("pinch", 0, 1) * 0.5f); BrushTipShape a(s, 0.125f); auto k = a.PerimeterCircles(); for (size_t i = 0; i < k.size(); ++i) for (size_t j = 0; j < i; ++j) __vp_assert(!k[i].Contains(k[j]) & !k[j].Contains(k[i]), "circles of a tip do not contain each other");
  s.position.x *= 1.25f; BrushTipShape b(s, 0.125f); if (!a.Contains(b) && !b.Contains(a)) { ExtrusionPoints e; BrushTipShape::AppendStartcapExtrusionPoints(a, b, 0.125f, e); BrushTipShape::AppendEndcapExtrusionPoints(a, b, 0.125f, e); for (auto* v : {&e.left, &e.right}) for (auto& q : *v) __vp_assert(Fin(q.x) & Fin(q.y), "finite"); } __vp_reach("end");
}
