// SRC: ink/geometry/triangle.cc
// SRC: ink/geometry/segment.cc
// SRC: ink/geometry/vec.cc
// SRC: ink/geometry/angle.cc
// OPT: budget=60
// OPT: budget_thorough=600
// BOUND: three points on [0,3]^2, four on [0,2]^2 (thorough: five on [0,2]^2), duplicates and collinear runs included; with pre-pruning (more than 500 points): 497 or more copies of one point and up to four others
// ASSUME: none beyond IEEE-754 single precision
#include <vector>

#include "geo_ref.h"
#include "ink/geometry/convex_hull.h"
#include "ink/geometry/internal/convex_hull_helper.h"
#include "ink/geometry/internal/point_tessellation_helper.h"
using namespace ref;
static void CheckHull(const std::vector<P>& in, absl::Span<const ink::Point> h) {
  size_t n = h.size(); __vp_assert(n >= 1 && n <= in.size(), "hull size");
  std::vector<P> q; bool sub = true; for (const ink::Point& v : h) { bool f = false; for (const P& p : in) f = f | ((v.x == (float)p.x) & (v.y == (float)p.y)); sub = sub & f; q.push_back({(int)v.x, (int)v.y}); }
  __vp_assert(sub, "hull points are input points");
  if (n >= 3) { bool turn = true; for (size_t i = 0; i < n; i++) turn = turn & (Det(q[i], q[(i + 1) % n], q[(i + 2) % n]) > 0); __vp_assert(turn, "hull turns strictly left at every point");
    bool in_all = true; for (const P& p : in) for (size_t i = 0; i < n; i++) in_all = in_all & (Det(q[i], q[(i + 1) % n], p) >= 0); __vp_assert(in_all, "no input point is outside the hull"); }
  else if (n == 2) { __vp_assert(!Same(q[0], q[1]), "two distinct hull points"); bool ok = true; for (const P& p : in) ok = ok & On(p, q[0], q[1]); __vp_assert(ok, "all points lie on the hull segment"); }
  else { bool ok = true; for (const P& p : in) ok = ok & Same(p, q[0]); __vp_assert(ok, "a single hull point only when all points are equal"); }
}
template <int N> static void Hull(int hi) {
  static const char* nx[] = {"x0", "x1", "x2", "x3", "x4"}; static const char* ny[] = {"y0", "y1", "y2", "y3", "y4"};
  std::vector<P> in; std::vector<ink::Point> pts; for (int i = 0; i < N; i++) { in.push_back(Pt(nx[i], ny[i], 0, hi)); pts.push_back(F(in.back())); }
  std::vector<ink::Point> h = ink::ConvexHull(pts); CheckHull(in, h); __vp_reach("end");
}
VP_ENTRY(g12_empty) { std::vector<ink::Point> none; __vp_assert(ink::ConvexHull(none).empty(), "empty input"); ink::Point p{__vp_f32("x"), __vp_f32("y")}; auto h = ink::ConvexHull(absl::MakeConstSpan(&p, 1)); __vp_assert(h.size() == 1 && vp::same(h[0].x, p.x) && vp::same(h[0].y, p.y), "one point"); __vp_reach("end"); }
VP_ENTRY(g12_two) { Hull<2>(7); }
VP_ENTRY(g12_three) { Hull<3>(5); }
VP_ENTRY(g12_four) { Hull<4>(3); }
VP_ENTRY_T(g12_five) { Hull<5>(2); }
// Pre-pruning drops only points that cannot be hull corners: a point that is the only input at its position and
// extreme in one of the listed directions is kept, and what is kept is a sub-list of the input.
VP_ENTRY(g12_prune_keeps_extremes) {
  std::vector<P> in{Pt("x0", "y0", 0, 2), Pt("x1", "y1", 0, 2), Pt("x2", "y2", 0, 2), {1, 1}}; std::vector<ink::Point> pts; for (P p : in) pts.push_back(F(p));
  std::vector<ink::Point> out = ink::geometry_internal::PruneUsingAkiToussaint<ink::geometry_internal::PointTessellationHelper>(absl::MakeConstSpan(pts));
  size_t j = 0; for (const ink::Point& o : out) { while (j < pts.size() && !((pts[j].x == o.x) & (pts[j].y == o.y))) j++; __vp_assert(j < pts.size(), "kept points are a sub-list of the input"); j++; }
  for (int dx = -2; dx <= 2; dx++) for (int dy = -2; dy <= 2; dy++) { if (!dx && !dy) continue;
    for (size_t i = 0; i < in.size(); i++) { bool strict = true; for (size_t k = 0; k < in.size(); k++) if (k != i) strict = strict & (in[i].x * dx + in[i].y * dy > in[k].x * dx + in[k].y * dy);
      bool kept = false; for (const ink::Point& o : out) kept = kept | ((o.x == pts[i].x) & (o.y == pts[i].y)); __vp_assert(!strict | kept, "the single extreme point in a direction is kept"); } }
  __vp_reach("end");
}
template <int N> static void Many(bool corner) {
  std::vector<ink::Point> pts(501, F(P{1, 1})); std::vector<P> in{{1, 1}}; static const char* nx[] = {"x0", "x1", "x2"}; static const char* ny[] = {"y0", "y1", "y2"};
  if (corner) { in.push_back({2, 0}); pts.push_back(F(in.back())); }
  for (int i = 0; i < N; i++) { in.push_back(Pt(nx[i], ny[i], 0, 2)); pts.push_back(F(in.back())); }
  std::vector<ink::Point> h = ink::ConvexHull(pts); CheckHull(in, h); __vp_reach("end");
}
VP_ENTRY(g12_many) { Many<2>(true); }
VP_ENTRY_T(g12_many_three) { Many<3>(true); }
