// SRC: ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc ink/strokes/internal/brush_tip_extruder/derivative_calculator_helpers.cc
// SRC: ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc ink/strokes/internal/brush_tip_extruder/extruded_vertex.cc ink/strokes/internal/legacy_vertex.cc ink/strokes/internal/stroke_vertex.cc ink/color/color.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/internal/algorithms.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// OPT: budget=150
// OPT: total=500
// BOUND: stroke meshes of 2 to 5 triangles between two sides (straight, tapering, bent, with coincident neighbours, degenerate triangles and interior vertices) with one coordinate of one vertex any of 128 values on a 1/16 grid
// ASSUME: meshes list left vertices at even and right vertices at odd indices and triangles in order along the stroke, as the extruder produces them
#include <cmath>
#include <vector>

#include "ink/strokes/internal/brush_tip_extruder/derivative_calculator.h"
#include "ink/strokes/internal/brush_tip_extruder/derivative_calculator_helpers.h"
#include "vp.h"
using namespace ink; using namespace ink::brush_tip_extruder_internal; using strokes_internal::StrokeVertex; typedef StrokeVertex SV;
struct D { double x, y; }; static D operator-(D a, D b) { return {a.x - b.x, a.y - b.y}; } static D operator+(D a, D b) { return {a.x + b.x, a.y + b.y}; } static D operator*(double k, D a) { return {k * a.x, k * a.y}; } static double Dot(D a, D b) { return a.x * b.x + a.y * b.y; } static double Det(D a, D b) { return a.x * b.y - a.y * b.x; }
static D P(Point p) { return {p.x, p.y}; } static D P(Vec p) { return {p.x, p.y}; }
static double Ab(double v) { return v < 0 ? -v : v; }
struct Strip { std::vector<Point> v; std::vector<std::array<uint32_t, 3>> t; std::vector<SV::Label> s, f; std::vector<uint32_t> Side(int w, uint32_t from = 0) const { std::vector<uint32_t> r; for (uint32_t i = from; i < v.size(); ++i) if ((int)(i & 1) == w) r.push_back(i); return r; } };
static Strip Make(const std::vector<Point>& v) { Strip s; s.v = v; for (uint32_t i = 0; i + 2 < v.size(); ++i) { if (i & 1) s.t.push_back({i + 1, i, i + 2}); else s.t.push_back({i, i + 1, i + 2}); } for (uint32_t i = 0; i < v.size(); ++i) { s.s.push_back(i & 1 ? SV::kExteriorRightLabel : SV::kExteriorLeftLabel); s.f.push_back(SV::kInteriorLabel); } return s; }
static void Fill(const Strip& s, MutableMesh& m) { MutableMeshView w(m); for (size_t i = 0; i < s.v.size(); ++i) { w.AppendVertex({.position = s.v[i]}); w.SetSideLabel(i, s.s[i]); w.SetForwardLabel(i, s.f[i]); } for (auto& t : s.t) w.AppendTriangleIndices(t); }
static const std::vector<Point> kShapes[] = {{{0, 0}, {4, 0}, {0, 4}, {4, 4}, {0, 8}, {4, 8}}, {{0, 0}, {1, 0}, {-1, 3}, {3, 2}, {-2, 6}, {6, 4}}, {{0, 0}, {6, 0}, {1, 1}, {6, 2}, {2, 2}, {7, 6}, {1, 6}}};
// The altitude of a triangle from side `ab` to its third corner; false when `ab` has no length.
static bool Alt(D a, D b, D c, D* out) { double n = Dot(b - a, b - a); if (n == 0) return false; *out = (c - a) - (Dot(c - a, b - a) / n) * (b - a); return true; }
struct Avg { D u{0, 0}; double m = 0; int n = 0; void Add(D d) { double l = std::sqrt(Dot(d, d)); if (l == 0) return; u = u + (1 / l) * d; m += l; ++n; } };
static bool Close(Vec got, const Avg& a) { if (a.n == 0) return (got.x == 0) & (got.y == 0); double l = std::sqrt(Dot(a.u, a.u)), m = a.m / a.n; D want = (m / l) * a.u; return (l < 0.05) | ((Ab(got.x - want.x) <= 0.001 * m) & (Ab(got.y - want.y) <= 0.001 * m)); }
static void Check(const Strip& s, bool derivatives) {
  MutableMesh mesh(SV::FullMeshFormat()); Fill(s, mesh); MutableMeshView w(mesh); DerivativeCalculator c; auto l = s.Side(0), r = s.Side(1); c.UpdateMesh(l, r, w); size_t n = s.v.size();
  if (derivatives) {
    std::vector<Avg> side(n), fwd(n); for (auto& t : s.t) { D p[3]; for (int k = 0; k < 3; ++k) p[k] = P(s.v[t[k]]); D a01, a12, a20; if (!Alt(p[0], p[1], p[2], &a01) || !Alt(p[1], p[2], p[0], &a12) || !Alt(p[2], p[0], p[1], &a20)) continue; bool left = t[2] % 2 == 0; auto in = [&](int k) { return s.s[t[k]].encoded_value == 0; }; bool ok = !in(2) && !in(left ? 0 : 1); for (uint32_t i : t) { if (ok) side[i].Add(left ? a20 : -1.0 * a12); fwd[i].Add(a01); fwd[i].Add(-1.0 * a12); fwd[i].Add(-1.0 * a20); } }
    // Neighbours at the same place with the same labels share the average over all of their triangles.
    std::vector<Avg> own = side; for (size_t i = 0; i < n; ++i) { size_t b = i, e = i; auto alike = [&](size_t x, size_t y) { return s.v[x] == s.v[y] && s.s[x].encoded_value == s.s[y].encoded_value && s.f[x].encoded_value == s.f[y].encoded_value; }; while (b >= 2 && alike(b - 2, i)) b -= 2; while (e + 2 < n && alike(e + 2, i)) e += 2; side[i] = Avg(); for (size_t k = b; k <= e; k += 2) { side[i].u = side[i].u + own[k].u; side[i].m += own[k].m; side[i].n += own[k].n; } }
    for (size_t i = 0; i < n; ++i) { __vp_assert(Close(w.GetSideDerivative(i), side[i]), "side derivatives average the widths of the adjacent triangles, from left to right"); } __vp_reach("derivatives");
  } else {
    std::vector<D> at(n), to(n); bool range = true; for (size_t i = 0; i < n; ++i) { auto lab = w.GetSideLabel(i); double m = lab.DecodeMargin(); range = range & (m >= 0) & (m <= SV::kMaximumMargin); __vp_assert(lab.DecodeSideCategory() == s.s[i].DecodeSideCategory(), "labels keep their side"); D d = P(w.GetSideDerivative(i)); at[i] = P(s.v[i]); to[i] = at[i] + (m * (s.s[i].encoded_value == 0 ? 0 : i & 1 ? 1 : -1)) * d; } __vp_assert(range, "margins stay between nothing and the maximum");
    // The region of a corner lies beyond the two segments that join the other corners to the middle parts of their opposite edges.
    auto leaves = [&](const std::array<uint32_t, 3>& t, int k, D x, double slack) { bool out = false; for (int o = 1; o < 3; ++o) { D c = at[t[(k + o) % 3]], a = at[t[(k + o + 1) % 3]], b = at[t[(k + o + 2) % 3]]; double q = Dot(c - a, b - a) / Dot(b - a, b - a); q = q < 0.1 ? 0.1 : q > 0.9 ? 0.9 : q; D e = a + q * (b - a) - c; double n = std::sqrt(Dot(e, e)), h0 = Det(e, at[t[k]] - c), h1 = Det(e, x - c); out = out | ((h0 > 0 ? -h1 : h1) > slack * n); } return out; };
    bool inside = true, tight = true, still = true; for (size_t i = 0; i < n; ++i) { D d = (i & 1 ? 1.0 : -1.0) * P(w.GetSideDerivative(i)); double m = w.GetSideLabel(i).DecodeMargin(); bool free = true; for (auto& t : s.t) for (int k = 0; k < 3; ++k) if (t[k] == i) { D p[3]; for (int q = 0; q < 3; ++q) p[q] = at[t[(k + q) % 3]]; double a = Det(p[1] - p[0], p[2] - p[0]); auto eq = [&](int x, int y) { return (p[x].x == p[y].x) & (p[x].y == p[y].y); }; if (a == 0) { if (eq(0, 1) | eq(1, 2) | eq(0, 2)) continue; still = still & (m == 0); free = false; } else { inside = inside & !leaves(t, k, to[i], 1e-3); D x = at[i] + (m + 0.04) * d; free = free & !leaves(t, k, x, -1e-4); } }
      bool shared = false; for (size_t k = 0; k < n; ++k) shared = shared | ((k != i) & (s.v[k] == s.v[i])); tight = tight & (!free | shared | (m >= SV::kMaximumMargin - 0.04) | (s.s[i].encoded_value == 0) | (w.GetSideDerivative(i) == Vec{0, 0})); }
    __vp_assert(still, "vertices of flattened triangles do not move"); __vp_assert(inside, "moving outwards within its margin a vertex stays in its own region of each of its triangles"); __vp_assert(tight, "margins are as large as the triangles allow"); __vp_reach("margins");
  }
}
static Strip Shape(int k, int vertex, bool y) { auto v = kShapes[k]; float t = vp::grid("t", 0, 127, 4); if (y) v[vertex].y = t; else v[vertex].x = t; return Make(v); }
VP_ENTRY(e07_width_straight) { Check(Shape(0, 3, false), true); }
VP_ENTRY(e07_margin_straight) { Check(Shape(0, 3, false), false); }
VP_ENTRY(e07_width_bent) { Check(Shape(2, 4, true), true); }
VP_ENTRY(e07_margin_bent) { Check(Shape(2, 4, true), false); }
VP_ENTRY(e07_margin_taper) { Check(Shape(1, 4, false), false); }
VP_ENTRY(e07_width_taper) { Check(Shape(1, 3, true), true); }
static Strip Flat(bool y) { Strip s = Make({{0, 0}, {4, 0}, {0, 4}, {4, 4}, {0, 8}}); float t = vp::grid("t", 0, 127, 4); s.v[2] = y ? Point{2, 0} : Point{t, 0}; if (y) s.v[3].x = t; return s; } // the first triangle has no area
VP_ENTRY(e07_flat_a) { Check(Flat(false), false); }
VP_ENTRY(e07_flat_b) { Check(Flat(true), false); }
static Strip Interior(int k, int shape = 0) { Strip s = Shape(shape, 3, true); s.s[k] = SV::kInteriorLabel; return s; }
VP_ENTRY(e07_interior_margin) { Check(Interior(2), false); }
VP_ENTRY(e07_interior_width_a) { Check(Interior(__vp_concretize(__vp_range("k", 0, 2)), 1), true); }
VP_ENTRY(e07_interior_width_b) { Check(Interior(__vp_concretize(__vp_range("k", 3, 5)), 1), true); }
// Neighbours on one side at the same place with the same labels share derivatives and margin.
static Strip Doubled(int k) { auto v = kShapes[0]; float t = vp::grid("t", 0, 127, 4); v[3].x = t; v[k + 2] = v[k]; return Make(v); }
static void Shared(int k) { Strip s = Doubled(k); MutableMesh mesh(SV::FullMeshFormat()); Fill(s, mesh); MutableMeshView w(mesh); DerivativeCalculator c; c.UpdateMesh(s.Side(0), s.Side(1), w); Vec a = w.GetSideDerivative(k), b = w.GetSideDerivative(k + 2), d = w.GetForwardDerivative(k), e = w.GetForwardDerivative(k + 2); __vp_assert((a.x == b.x) & (a.y == b.y) & (d.x == e.x) & (d.y == e.y), "coincident neighbours share their derivatives"); __vp_assert(w.GetSideLabel(k).encoded_value == w.GetSideLabel(k + 2).encoded_value, "coincident neighbours share their margin"); __vp_reach("end"); }
VP_ENTRY(e07_shared_a) { Shared(0); }
VP_ENTRY(e07_shared_b) { Shared(2); }
static Strip Meet(int k, int label) { auto v = kShapes[1]; float t = vp::grid("t", 0, 63, 4); v[3].x = t; v[k + 2] = v[k]; Strip s = Make(v); if (label == 1) s.s[k] = SV::kInteriorLabel; if (label == 2) s.s[k + 2] = SV::kInteriorLabel; if (label == 3) s.f[k] = SV::kExteriorFrontLabel; if (label == 4) s.f[k + 2] = SV::kExteriorBackLabel; return s; }
VP_ENTRY(e07_meet_a) { Check(Meet(0, __vp_concretize(__vp_range("l", 0, 4))), true); }
VP_ENTRY(e07_meet_b) { Check(Meet(2, __vp_concretize(__vp_range("l", 0, 4))), true); }
// Updating the end of a mesh changes nothing before it and gives the end what updating everything gives it.
static void Tail(Strip s, uint32_t from) {
  for (uint32_t i = from; i < from + 2; ++i) if (s.v[i] == s.v[i - 2]) return; // updates never start inside a run of coincident vertices
  MutableMesh m1(SV::FullMeshFormat()), m2(SV::FullMeshFormat()); Fill(s, m1); Fill(s, m2); MutableMeshView a(m1), b(m2); DerivativeCalculator c, d; c.UpdateMesh(s.Side(0), s.Side(1), a); uint32_t side = __vp_concretize(__vp_range("sides", 0, 3)); auto l = s.Side(0, from), r = s.Side(1, from); if (!(side & 1)) l.clear(); if (!(side & 2)) r.clear(); d.UpdateMesh(l, r, b);
  for (uint32_t i = 0; i < s.v.size(); ++i) { Vec x = b.GetSideDerivative(i), y = b.GetForwardDerivative(i), u = a.GetSideDerivative(i), v = a.GetForwardDerivative(i); bool touched = i >= from && (i & 1 ? side & 2 : side & 1); if (touched) __vp_assert((x.x == u.x) & (x.y == u.y) & (y.x == v.x) & (y.y == v.y) & (a.GetSideLabel(i).encoded_value == b.GetSideLabel(i).encoded_value), "the end of the mesh gets the same values as in a full update"); else __vp_assert((x.x == 0) & (x.y == 0) & (y.x == 0) & (y.y == 0) & (b.GetSideLabel(i).encoded_value == s.s[i].encoded_value), "vertices that are not updated keep their values"); __vp_assert((b.GetPosition(i) == s.v[i]) & (b.GetForwardLabel(i).encoded_value == s.f[i].encoded_value), "positions and forward labels never change"); } __vp_reach("end");
}
VP_ENTRY(e07_tail_a) { Tail(Shape(0, 4, true), 4); }
VP_ENTRY(e07_tail_b) { Tail(Shape(2, 4, true), 3); }
// Lengths and directions of forward derivatives: along the stroke, the altitudes over the edges between equal forward labels.
VP_ENTRY(e07_forward) {
  Strip s = Make({{0, 0}, {4, 0}, {1, 4}}); float t = vp::grid("t", 0, 127, 4); s.v[2].x = t; int cat = __vp_concretize(__vp_range("cat", 0, 7)); for (int i = 0; i < 3; ++i) s.f[i] = cat >> i & 1 ? SV::kExteriorFrontLabel : SV::kInteriorLabel; MutableMesh m(SV::FullMeshFormat()); Fill(s, m); MutableMeshView w(m); DerivativeCalculator c; c.UpdateMesh(s.Side(0), s.Side(1), w); Avg f; D p[3]; for (int i = 0; i < 3; ++i) p[i] = P(s.v[i]); D a01{0, 0}, a12{0, 0}, a20{0, 0}; Alt(p[0], p[1], p[2], &a01); Alt(p[1], p[2], p[0], &a12); Alt(p[2], p[0], p[1], &a20); bool e01 = (cat & 1) == (cat >> 1 & 1), e12 = (cat >> 1 & 1) == (cat >> 2 & 1), e02 = (cat & 1) == (cat >> 2 & 1); if (e01) f.Add(a01); if (e12) f.Add(-1.0 * a12); if (e02) f.Add(-1.0 * a20); for (int i = 0; i < 3; ++i) __vp_assert(Close(w.GetForwardDerivative(i), f), "forward derivatives average the altitudes between corners of equal forward label"); __vp_reach("end");
}
VP_ENTRY(e07_average) { // zero vectors are left out; the average keeps the average length
  DerivativeCalculator::AverageDerivative a, b; int k = __vp_concretize(__vp_range("k", 0, 3)); Vec u[4] = {{0, 0}, {3, 4}, {0, -2}, {-1, 0}}; float x = vp::grid("x", -64, 63, 3); a.Add(Vec{x, 0}); if (k & 1) a.Add(Vec{0, 0}); b.Add(u[k]); a.Add(b); Avg w; w.Add({x, 0}); w.Add(P(u[k])); __vp_assert(Close(a.Value(), w), "the average of non-zero vectors"); __vp_reach("end");
}
// The first exterior vertex of either side from some triangle on; the start of the run of coincident connected vertices.
VP_ENTRY(e07_first_exterior) {
  Strip s = Make(kShapes[0]); std::vector<SideId> ids; int ext = 0, fwd = 0; for (uint32_t i = 0; i < 6; ++i) { ids.push_back(i & 1 ? SideId::kRight : SideId::kLeft); static const char* ns[6] = {"s0", "s1", "s2", "s3", "s4", "s5"}; if (!__vp_bool(ns[i])) s.s[i] = SV::kInteriorLabel; else ext |= 1 << i; } int fi = __vp_concretize(__vp_range("fi", 0, 6)); if (fi < 6) { s.f[fi] = SV::kExteriorFrontLabel; ext |= 1 << fi; } (void)fwd; MutableMesh m(SV::FullMeshFormat()); Fill(s, m); MutableMeshView w(m); uint32_t from = __vp_concretize(__vp_range("from", 0, 4)); auto r = FindFirstExteriorVertices(w, ids, from); std::optional<uint32_t> l, rr; for (uint32_t i = 0; i < 6; ++i) if (from < 4 && i >= from && (ext >> i & 1)) { if (i & 1) { if (!rr) rr = i; } else if (!l) l = i; }
  if (l) __vp_assert(r.left.has_value() && *r.left == *l, "first exterior vertex on the left"); else __vp_assert(!r.left.has_value(), "no exterior vertex on the left"); if (rr) __vp_assert(r.right.has_value() && *r.right == *rr, "first exterior vertex on the right"); else __vp_assert(!r.right.has_value(), "no exterior vertex on the right"); __vp_reach("end");
}
VP_ENTRY(e07_run_start) {
  MutableMesh m(SV::FullMeshFormat()); MutableMeshView w(m); static const char* np[5] = {"p0", "p1", "p2", "p3", "p4"}; static const char* nc[5] = {"c0", "c1", "c2", "c3", "c4"}; Point p[5]; int c[5]; std::vector<uint32_t> ix; for (uint32_t i = 0; i < 5; ++i) { p[i] = {(float)(i ? __vp_concretize(__vp_range(np[i], 0, 1)) : 0), 1}; c[i] = i > 3 ? 0 : __vp_concretize(__vp_range(nc[i], 0, 2)); w.AppendVertex({.position = p[i]}); w.SetForwardLabel(i, c[i] == 0 ? SV::kInteriorLabel : c[i] == 1 ? SV::kExteriorFrontLabel : SV::kExteriorBackLabel); ix.push_back(i); }
  uint32_t at = __vp_concretize(__vp_range("at", 0, 3)); uint32_t r = StartingOffsetForCoincidentConnectedVertices(w, ix, at); uint32_t want = at; while (want > 0 && p[want - 1] == p[at] && !(c[want] == 1 && c[want - 1] != 1)) --want; __vp_assert(r == want, "the run reaches back over coincident connected vertices"); __vp_reach("end");
}
