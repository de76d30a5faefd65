// SRC: ink/geometry/internal/static_rtree.cc
// SRC: ink/geometry/internal/intersects_internal.cc
// SRC: ink/geometry/envelope.cc
// SRC: ink/geometry/rect.cc
// SRC: ink/geometry/quad.cc
// SRC: ink/geometry/triangle.cc
// SRC: ink/geometry/segment.cc
// SRC: ink/geometry/vec.cc
// SRC: ink/geometry/angle.cc
// OPT: budget=60
// OPT: budget_thorough=600
// BOUND: element counts 0..3 at branching factor 16, 5 and 6 at branching factor 2, 4 and 5 at branching factor 3 (thorough: 7 and 10), element boxes with one symbolic corner coordinate each and constant extents, all query boxes on the same grid [0,3]
// ASSUME: libm sqrt is IEEE exact
#include <vector>

#include "geo_ref.h"
#include "ink/geometry/internal/static_rtree.h"
using namespace ref; using ink::geometry_internal::StaticRTree;
struct El { int id; R r; };
template <uint32_t B> static void Tree(int n, int lo, int hi, bool stop) {
  static const char* nm[] = {"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9"}; std::vector<El> els;
  for (int i = 0; i < n; i++) { int x = i * 3 % 5, y = i * 2 % 7, w = i % 3, h = (i + 1) % 2; if (i % 2) x = __vp_range(nm[i], lo, hi); else y = __vp_range(nm[i], lo, hi); els.push_back({i, R{x, y, x + w, y + h}}); }
  StaticRTree<El, B> t(absl::MakeConstSpan(els), [](const El& e) { return F(e.r); });
  R q = Rc("qx0", "qy0", "qx1", "qy1", lo, hi); std::vector<int> seen(n, 0); int calls = 0; bool stopped = false;
  t.VisitIntersectedElements(F(q), [&](const El& e) { __vp_assert(!stopped, "no call after the visitor stopped"); __vp_assert(e.id >= 0 && e.id < n, "only stored elements are visited"); seen[e.id]++; calls++; if (stop) stopped = true; return !stop; });
  int want = 0; bool all = true; for (int i = 0; i < n; i++) { const R& r = els[i].r; bool hit = (r.x0 <= q.x1) & (q.x0 <= r.x1) & (r.y0 <= q.y1) & (q.y0 <= r.y1); want += hit; if (!stop) all = all & (seen[i] == (hit ? 1 : 0)); else all = all & (seen[i] <= (hit ? 1 : 0)); }
  __vp_assert(all, "visited exactly the elements that meet the query, once each"); if (stop) __vp_assert(calls == (want > 0 ? 1 : 0), "stops after the first element"); __vp_reach("end");
}
VP_ENTRY(g13_empty) {
  StaticRTree<El> t, u(absl::Span<const El>(), [](const El& e) { return F(e.r); }); int calls = 0; R q = Rc("qx0", "qy0", "qx1", "qy1", -4, 4);
  t.VisitIntersectedElements(F(q), [&](const El&) { calls++; return true; }); u.VisitIntersectedElements(F(q), [&](const El&) { calls++; return true; });
  __vp_assert(calls == 0, "nothing to visit in an empty tree"); __vp_reach("end");
}
VP_ENTRY(g13_leaf_only) { int n = __vp_concretize(__vp_range("n", 1, 3)); Tree<16>(n, 0, 3, false); }
VP_ENTRY(g13_two_levels_b3) { int n = __vp_concretize(__vp_range("n", 4, 5)); Tree<3>(n, 0, 3, false); }
VP_ENTRY(g13_deep_b2) { Tree<2>(5, 0, 3, false); }
VP_ENTRY(g13_stop) { Tree<2>(4, 0, 3, true); }
VP_ENTRY_T(g13_b3_seven) { Tree<3>(7, 0, 3, false); }
VP_ENTRY(g13_b2_six) { Tree<2>(6, 0, 3, false); }
VP_ENTRY_T(g13_b3_ten) { Tree<3>(10, 0, 1, false); }
