// SRC: ink/geometry/internal/polyline_processing.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/internal/static_rtree.cc ink/geometry/intersects.cc ink/geometry/distance.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/mesh.cc ink/geometry/mesh_format.cc ink/geometry/internal/mesh_packing.cc ink/geometry/partitioned_mesh.cc ink/geometry/mutable_mesh.cc
// OPT: budget=120
// BOUND: 10 base polylines of 4 to 8 segments (open, loops, figure 8, spiral, hooks at both ends, crossing ends) with one point moved by -2..2 in x and by any of 16 quarter steps in y, 5 parameter sets, optional consecutive duplicates; polylines of up to 3 points with any coordinates; inputs whose decisions lie within 1e-4 of a threshold or tie are checked only for the structural rules
#include <cmath>
#include <vector>

#include "ink/geometry/internal/polyline_processing.h"
#include "vp.h"
using namespace ink; using namespace ink::geometry_internal;
static int C(const char* n, int lo, int hi) { return (int)__vp_concretize(__vp_range(n, lo, hi)); }
typedef std::vector<Point> Pts;
struct D { double x, y; };
static double Cross(double ax, double ay, double bx, double by) { return ax * by - ay * bx; }
static double Dist(D a, D b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)); }
// independent model: every pair of segments is intersected, every segment considered as a connection
struct Model {
  std::vector<D> p; int n; std::vector<double> len; bool exact = true, inter = false, cf = false, cl = false; int fi = 0, li = 0; double ft = 0, lt = 0; D first{}, last{};
  explicit Model(const Pts& q) { for (auto& a : q) { D d{a.x, a.y}; if (p.empty() || p.back().x != d.x || p.back().y != d.y) p.push_back(d); } n = (int)p.size() - 1; for (int i = 0; i < n; ++i) len.push_back(Dist(p[i], p[i + 1])); }
  D At(int i, double t) { return {p[i].x + t * (p[i + 1].x - p[i].x), p[i].y + t * (p[i + 1].y - p[i].y)}; }
  // ratio along i; exact on the grids used
  bool Cut(int i, int j, double& t) {
    double ux = p[i + 1].x - p[i].x, uy = p[i + 1].y - p[i].y, vx = p[j + 1].x - p[j].x, vy = p[j + 1].y - p[j].y, wx = p[j].x - p[i].x, wy = p[j].y - p[i].y, det = Cross(ux, uy, vx, vy);
    if (det == 0) { if (Cross(ux, uy, wx, wy) != 0) return false; double l = ux * ux + uy * uy, a = (wx * ux + wy * uy) / l, b = a + (vx * ux + vy * uy) / l; if (std::fmax(a, b) < 0 || std::fmin(a, b) > 1) return false; exact = false; t = std::fmax(0, std::fmin(a, b)); return true; }
    double s = Cross(wx, wy, ux, uy) / det; t = Cross(wx, wy, vx, vy) / det; return t >= 0 && t <= 1 && s >= 0 && s <= 1;
  }
  double Walk(int i, double t, bool back) { double r = back ? (1 - t) * len[i] : t * len[i]; if (back) { for (int k = i + 1; k < n; ++k) r += len[k]; } else for (int k = 0; k < i; ++k) r += len[k]; return r; }
  bool Less(double a, double b) { if (std::fabs(a - b) < 1e-4) exact = false; return a < b; }
  bool Connect(D e, bool back, double walk, double maxd, double ratio, double trim, double tofirst, int& bi, double& bt) {
    double best = 1e30; D bp{}; bool found = false;
    for (int i = back ? 0 : 2; i < (back ? n - 2 : n); ++i) {
      double ux = p[i + 1].x - p[i].x, uy = p[i + 1].y - p[i].y, t = ((e.x - p[i].x) * ux + (e.y - p[i].y) * uy) / (ux * ux + uy * uy); t = t < 0 ? 0 : t > 1 ? 1 : t; D q = At(i, t); double d = Dist(e, q); if (!Less(d, maxd)) continue; double w = Walk(i, t, back); if (d == 0) { exact = false; continue; }
      if (Less(w, walk) || Less(w / d, ratio)) continue; if (inter && Less(tofirst / d, trim)) continue;
      if (found && std::fabs(d - best) < 1e-4) { if (Dist(q, bp) > 1e-3) exact = false; if (d >= best) continue; } if (d < best) { best = d; bp = q; bi = i; bt = t; found = true; }
    }
    return found;
  }
  std::vector<D> Run(double walk, double maxd, double ratio, double trim) {
    double wf = 0, wl = 0;
    for (int i = 0; i < n && !inter; ++i) for (int j = i + 2; j < n; ++j) { double t; if (Cut(i, j, t) && (!inter || t < ft)) { inter = true; fi = i; ft = t; } }
    if (inter) { for (int i = n - 1, f = 0; i >= 0 && !f; --i) for (int j = 0; j < i - 1; ++j) { double t; if (Cut(i, j, t) && (!f || t > lt)) { f = 1; li = i; lt = t; } } first = At(fi, ft); last = At(li, lt); wf = Walk(fi, ft, false); wl = Walk(li, lt, true); }
    int ai = 0, bi = 0; double at = 0, bt = 0; cf = Connect(p[0], false, walk, maxd, ratio, trim, wf, ai, at); cl = Connect(p[n], true, walk, maxd, ratio, trim, wl, bi, bt); D ca = At(ai, at), cb = At(bi, bt);
    if (cf && !cl && (!inter || ai > li || (ai == li && at > lt))) { li = ai; lt = at; last = ca; } if (cl && !cf && (!inter || bi < fi || (bi == fi && bt < ft))) { fi = bi; ft = bt; first = cb; } if (cf) first = ca; if (cl) last = cb;
    if (!inter && !cf && !cl) return {}; std::vector<D> r{first}; for (int i = cf ? 0 : fi + 1; i <= (cl ? n : li); ++i) r.push_back(p[i]); r.push_back(last); return r;
  }
};
static bool Near(D a, Point b) { return (std::fabs(a.x - b.x) < 2e-3) & (std::fabs(a.y - b.y) < 2e-3); }
static const float par[5][4] = {{1.3f, 1.2f, 1.1f, 0.3f}, {0.1f, 3.3f, 1.3f, 1.7f}, {5.3f, 2.7f, 2.1f, 4.3f}, {0, 0, 0, 0}, {0.7f, 60.1f, 0.1f, 0.1f}};
static void Check(const Pts& pts, const float* c) {
  Pts out = ProcessPolylineForMeshCreation(pts, c[0], c[1], c[2], c[3]); Model m(pts); if (m.n < 3) { __vp_assert(out == pts, "too short to connect or trim: unchanged"); return; } std::vector<D> want = m.Run(c[0], c[1], c[2], c[3]);
  // structural rules: the result is a run of the input's points plus at most one new point at each end
  size_t k = out.size(); __vp_assert(k >= 2, "the result has points"); if (k < 2) return;
  if (out != pts) { bool run = false; for (size_t o = 0; o + 2 <= k && o <= 1; ++o) for (size_t e = 0; e <= 1; ++e) { size_t l = k - o - e; if (l > m.p.size()) continue; for (size_t s = 0; s + l <= m.p.size(); ++s) { bool ok = true; for (size_t i = 0; i < l; ++i) ok = ok & ((double)out[o + i].x == m.p[s + i].x) & ((double)out[o + i].y == m.p[s + i].y); if (ok) run = true; } } __vp_assert(run, "only the ends of the polyline change"); }
  if (!m.exact) return; if (want.empty()) { __vp_assert(out == pts, "nothing to connect or trim: unchanged"); return; }
  // compare without repeated points at the ends
  std::vector<D> w; for (auto& d : want) if (w.empty() || Dist(w.back(), d) > 1e-3) w.push_back(d); Pts g; for (auto& q : out) if (g.empty() || Dist({g.back().x, g.back().y}, {q.x, q.y}) > 1e-3) g.push_back(q); __vp_assert(g.size() == w.size(), "as many points as expected"); if (g.size() == w.size()) { bool ok = true; for (size_t i = 0; i < g.size(); ++i) ok = ok & Near(w[i], g[i]); __vp_assert(ok, "trimmed at the outermost intersections and connected to the nearest points"); }
  __vp_reach("trimmed or connected");
}
static const std::vector<Pts> base = {
  {{0, 0}, {4, 0}, {8, 1}, {12, 0}, {16, 2}},                                   // open
  {{0, 0}, {6, 0}, {6, 6}, {0, 6}, {0, 1}},                                     // almost closed loop
  {{0, 0}, {8, 8}, {8, 0}, {0, 8}, {-2, 4}},                                    // crossing
  {{-2, 3}, {6, 3}, {6, 8}, {1, 8}, {1, -2}, {4, -2}},                          // loop with both ends over
  {{0, 0}, {10, 0}, {10, 10}, {0, 10}, {0, 3}, {7, 3}, {7, 7}, {3, 6}},         // spiral
  {{2, 1}, {0, 4}, {0, 0}, {12, 0}, {12, 4}, {9, 1}},                           // hooks at both ends
  {{0, 0}, {4, 4}, {8, 0}, {12, 4}, {12, 0}, {8, 4}, {4, 0}, {0, 4}},           // figure eights
  {{3, 3}, {3, -3}, {9, -3}, {9, 5}, {-3, 5}, {-3, 0}, {6, 1}},                 // end crosses the start
  {{0, 0}, {8, 0}, {0, 4}, {-4, -4}, {2, -4}, {2, 6}},                          // last segment crosses the first two
  {{0, 0}, {10, 0}, {10, 4}, {2, 4}, {2, -4}, {6, -4}, {6, 4}},                 // first segment crossed twice
};
static void Moved(int b, bool dup) {
  Pts q = base[b]; int k = C("k", 0, (int)q.size() - 1), set = C("set", 0, 4); q[k].x += C("dx", -1, 1) * 2; q[k].y += vp::grid("dy", -8, 7, 2); if (dup) { int at = C("at", 0, (int)q.size() - 1); Point c = q[at]; q.insert(q.begin() + at, 1 + C("copies", 0, 1), c); } Check(q, par[set]);
}
VP_ENTRY(g15_open) { Moved(0, false); }
VP_ENTRY(g15_loop) { Moved(1, false); }
VP_ENTRY(g15_crossing) { Moved(2, false); }
VP_ENTRY(g15_tails) { Moved(3, false); }
VP_ENTRY(g15_spiral) { Moved(4, false); }
VP_ENTRY(g15_hooks) { Moved(5, false); }
VP_ENTRY(g15_eights) { Moved(6, false); }
VP_ENTRY(g15_start) { Moved(7, false); }
VP_ENTRY(g15_last_twice) { Moved(8, false); }
VP_ENTRY(g15_first_twice) { Moved(9, false); }
VP_ENTRY(g15_duplicates) { Moved(2, true); }
VP_ENTRY(g15_short) {
  int n = C("n", 0, 3); static const char* nx[3] = {"x0", "x1", "x2"}; static const char* ny[3] = {"y0", "y1", "y2"}; Pts p; for (int i = 0; i < n; ++i) p.push_back({(float)__vp_range(nx[i], -4, 3), (float)C(ny[i], 0, 1)}); Pts r = ProcessPolylineForMeshCreation(p, 0, 100, 0, 0); bool ok = r.size() == p.size(); for (size_t i = 0; ok && i < r.size(); ++i) ok = (r[i].x == p[i].x) & (r[i].y == p[i].y); __vp_assert(ok, "up to three points are returned unchanged"); __vp_reach("end");
}
