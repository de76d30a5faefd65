// SRC: ink/strokes/internal/brush_tip_extruder.cc ink/strokes/internal/brush_tip_extrusion.cc ink/strokes/internal/brush_tip_shape.cc ink/strokes/internal/brush_tip_state.cc ink/strokes/internal/circular_extrusion_helpers.cc ink/strokes/internal/constrain_brush_tip_extrusion.cc ink/strokes/internal/rounded_polygon.cc ink/strokes/internal/stroke_outline.cc ink/strokes/internal/stroke_shape_update.cc ink/strokes/internal/brush_tip_extruder/geometry.cc ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc ink/strokes/internal/brush_tip_extruder/derivative_calculator_helpers.cc ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc ink/strokes/internal/brush_tip_extruder/find_clockwise_winding_segment.cc ink/strokes/internal/brush_tip_extruder/simplify.cc ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc ink/strokes/internal/brush_tip_extruder/extruded_vertex.cc ink/strokes/internal/legacy_vertex.cc ink/strokes/internal/stroke_vertex.cc ink/color/color.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/circle.cc ink/geometry/internal/legacy_segment_intersection.cc ink/geometry/internal/legacy_triangle_contains.cc ink/geometry/internal/legacy_vector_utils.cc ink/geometry/internal/intersects_internal.cc ink/geometry/intersects.cc ink/geometry/distance.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/partitioned_mesh.cc ink/geometry/internal/static_rtree.cc
// OPT: budget=200
// OPT: total=600
// BOUND: three scenarios that restart an extruder or repeat updates without new fixed states, one grid variable of 16 values each
// BOUND: 10 hand-made scenarios (turns, U-turns, breaks, swallowing tips, hairpins that self-intersect) of 4 to 12 tip states with one coordinate or size symbolic on a grid of up to 16 values, and 8 self-intersecting walks of 6 to 11 states (chosen to reach all the intersection handling) with the last state's position on a grid of 2 or 4 values (thorough: 16 walks, offsets of an earlier state on 4 or 8 values); circular, rounded, rectangular and rotating tips; epsilon 1/4 and 1/8; derivatives and margins, which are updated incrementally, are compared in the hand-made scenarios only
#include <cmath>
#include <cstring>
#include <vector>

#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/brush_tip_extruder.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "tip_walk.h"
#include "vp.h"
using namespace ink; using namespace ink::strokes_internal;
static BrushTipState St(float x, float y, float w, float h, float round) { BrushTipState s; s.position = {x, y}; s.width = w; s.height = h; s.percent_radius = round; s.rotation = Angle(); s.slant = Angle(); s.pinch = 0; return s; }
struct Snap { std::vector<std::byte> v, i; std::vector<Point> p; std::vector<std::array<uint32_t, 3>> t; };
static Snap Take(const MutableMesh& m) { Snap s; auto a = m.RawVertexData(); auto b = m.RawIndexData(); s.v.assign(a.begin(), a.end()); s.i.assign(b.begin(), b.end()); for (uint32_t k = 0; k < m.VertexCount(); ++k) s.p.push_back(m.VertexPosition(k)); for (uint32_t k = 0; k < m.TriangleCount(); ++k) s.t.push_back(m.TriangleIndices(k)); return s; }
static bool Fin(float f) { return (f - f) == 0; }
static bool SameBox(const Envelope& a, const Envelope& b) { if (a.IsEmpty() || b.IsEmpty()) return a.IsEmpty() && b.IsEmpty(); Rect x = *a.AsRect(), y = *b.AsRect(); return (x.XMin() == y.XMin()) & (x.XMax() == y.XMax()) & (x.YMin() == y.YMin()) & (x.YMax() == y.YMax()); }
static void Valid(const MutableMesh& m, const BrushTipExtruder& e) {
  uint32_t n = m.VertexCount(); Envelope box; for (uint32_t i = 0; i < n; ++i) { auto v = StrokeVertex::GetFromMesh(m, i); __vp_assert(Fin(v.position.x) & Fin(v.position.y), "positions are finite"); box.Add(v.position); auto& a = v.non_position_attributes; __vp_assert(Fin(a.side_derivative.x) & Fin(a.side_derivative.y) & Fin(a.forward_derivative.x) & Fin(a.forward_derivative.y), "derivatives are finite"); }
  for (uint32_t i = 0; i < m.TriangleCount(); ++i) { auto t = m.TriangleIndices(i); __vp_assert((t[0] < n) & (t[1] < n) & (t[2] < n), "triangle indices are in range"); __vp_assert((t[0] != t[1]) & (t[0] != t[2]) & (t[1] != t[2]), "triangle indices are distinct"); }
  __vp_assert(SameBox(e.GetBounds(), box), "bounds are the box of the mesh");
  std::vector<int> seen(n); for (auto& o : e.GetOutlines()) for (uint32_t i : o.GetIndices()) { __vp_assert(i < n, "outline indices are in range"); if (i < n) ++seen[i]; } for (uint32_t i = 0; i < n; ++i) __vp_assert(seen[i] == 1, "every vertex is on exactly one outline");
}
static void Update(const Snap& o, const MutableMesh& m, const StrokeShapeUpdate& u) {
  Snap w = Take(m); size_t fv = u.first_vertex_offset ? *u.first_vertex_offset : o.p.size(), fi = u.first_index_offset ? *u.first_index_offset : o.t.size() * 3; if (!u.first_vertex_offset) __vp_assert(o.p.size() == w.p.size(), "no vertex change reported"); if (!u.first_index_offset) __vp_assert(o.t.size() == w.t.size(), "no triangle change reported"); __vp_assert(fi % 3 == 0 && fv <= o.p.size() && fv <= w.p.size() && fi / 3 <= o.t.size() && fi / 3 <= w.t.size(), "offsets lie within both versions");
  size_t s = m.VertexStride(); for (size_t k = 0; k < fv; ++k) __vp_assert(std::memcmp(o.v.data() + k * s, w.v.data() + k * s, s) == 0, "earlier vertices are unchanged"); for (size_t k = 0; k < fi / 3; ++k) __vp_assert(o.t[k] == w.t[k], "earlier triangles are unchanged");
  for (size_t k = 0; k < w.t.size() || k < o.t.size(); ++k) { bool same = k < w.t.size() && k < o.t.size() && w.t[k] == o.t[k]; if (same) for (uint32_t i : w.t[k]) same = same && i < o.p.size() && o.p[i] == w.p[i]; if (same) continue; for (const Snap* x : {&o, (const Snap*)&w}) if (k < x->t.size()) for (uint32_t i : x->t[k]) { bool in = !u.region.IsEmpty(); if (in) { Rect r = *u.region.AsRect(); Point p = x->p[i]; in = (p.x >= r.XMin()) & (p.x <= r.XMax()) & (p.y >= r.YMin()) & (p.y <= r.YMax()); } __vp_assert(in, "the region covers every changed triangle"); } }
}
typedef std::vector<BrushTipState> Sts;
struct Ext { MutableMesh m{StrokeVertex::FullMeshFormat()}; BrushTipExtruder e; explicit Ext(float eps) { e.StartStroke(eps, false, m); } void Step(const Sts& f, const Sts& v) { Snap s = Take(m); auto u = e.ExtendStroke(f, v); Valid(m, e); Update(s, m, u); } };
static Sts Cat(Sts a, const Sts& b) { for (auto& x : b) a.push_back(x); return a; }
// what was volatile leaves no trace, and how the fixed states were split does not matter
static void History(const Sts& f1, const Sts& junk, const Sts& f2, const Sts& vol, float eps = 0.25f, bool derivatives = true) {
  Ext a(eps), b(eps); a.Step(f1, junk); a.Step(f2, vol); b.Step(Cat(f1, f2), vol); Snap x = Take(a.m), y = Take(b.m); __vp_assert(x.p.size() == y.p.size() && x.t.size() == y.t.size(), "same mesh size"); if (x.p.size() != y.p.size() || x.t.size() != y.t.size()) return; for (size_t i = 0; i < x.t.size(); ++i) __vp_assert(x.t[i] == y.t[i], "same triangles"); for (uint32_t i = 0; i < x.p.size(); ++i) { __vp_assert((x.p[i].x == y.p[i].x) & (x.p[i].y == y.p[i].y), "same positions"); auto v = StrokeVertex::GetFromMesh(a.m, i), w = StrokeVertex::GetFromMesh(b.m, i); auto c = v.non_position_attributes, d = w.non_position_attributes; if (!derivatives) { c.side_derivative = d.side_derivative; c.forward_derivative = d.forward_derivative; c.side_label = StrokeVertex::Label{(float)(int)c.side_label.DecodeSideCategory()}; d.side_label = StrokeVertex::Label{(float)(int)d.side_label.DecodeSideCategory()}; c.forward_label = StrokeVertex::Label{(float)(int)c.forward_label.DecodeForwardCategory()}; d.forward_label = StrokeVertex::Label{(float)(int)d.forward_label.DecodeForwardCategory()}; } __vp_assert(c == d, "same attributes"); }
  __vp_assert(SameBox(a.e.GetBounds(), b.e.GetBounds()), "same bounds"); auto o = a.e.GetOutlines(), q = b.e.GetOutlines(); __vp_assert(o.size() == q.size(), "same number of outlines"); if (o.size() == q.size()) for (size_t i = 0; i < o.size(); ++i) __vp_assert(o[i].GetIndices() == q[i].GetIndices(), "same outlines"); __vp_reach("end");
}
// a stroke started after another one (whatever state it ended in) is like one started with a fresh extruder; updates without new fixed states change nothing
static void Restart(const Sts& before, const Sts& junk, const Sts& f1, const Sts& v1, const Sts& f2, const Sts& vol) {
  Ext a(0.25f), b(0.25f); a.Step(before, junk); a.e.StartStroke(0.25f, false, a.m); for (auto& o : a.e.GetOutlines()) __vp_assert(o.GetIndices().empty(), "no outline before the first update"); a.Step(f1, v1); a.Step({}, vol); a.Step({}, v1); a.Step(f2, vol); b.Step(Cat(f1, f2), vol);
  Snap x = Take(a.m), y = Take(b.m); __vp_assert(x.p.size() == y.p.size() && x.t.size() == y.t.size(), "same mesh size"); if (x.p.size() != y.p.size() || x.t.size() != y.t.size()) return; for (size_t i = 0; i < x.t.size(); ++i) __vp_assert(x.t[i] == y.t[i], "same triangles"); for (uint32_t i = 0; i < x.p.size(); ++i) __vp_assert((x.p[i].x == y.p[i].x) & (x.p[i].y == y.p[i].y), "same positions");
  __vp_assert(SameBox(a.e.GetBounds(), b.e.GetBounds()), "same bounds"); auto o = a.e.GetOutlines(), q = b.e.GetOutlines(); __vp_assert(o.size() == q.size(), "same number of outlines"); if (o.size() == q.size()) for (size_t i = 0; i < o.size(); ++i) __vp_assert(o[i].GetIndices() == q[i].GetIndices(), "same outlines"); __vp_reach("end");
}
static BrushTipState C2(float x, float y) { return St(x, y, 2, 2, 1); }
static BrushTipState R2(float x, float y) { return St(x, y, 2, 1, 0); }
static BrushTipState Big(float x, float y, float d) { return St(x, y, d, d, 1); }
static BrushTipState Gap(float x, float y) { return St(x, y, 0, 0, 1); }
VP_ENTRY(e04_circle_turn) { float x = vp::grid("x", 0, 7, 0); History({C2(0, 0), C2(3, 0)}, {C2(6, 1)}, {C2(x, 3)}, {C2(6, 4)}); }
VP_ENTRY(e04_rect_turn) { float x = vp::grid("x", -4, 11, 0); History({R2(0, 0), R2(3, 0)}, {R2(6, 1)}, {R2(x, 3)}, {R2(6, 4)}); }
VP_ENTRY(e04_rect_uturn) { float y = vp::grid("y", -4, 11, 2); History({R2(0, 0), R2(3, 0), R2(6, 0)}, {R2(9, 0)}, {R2(4, y)}, {R2(1, y)}); }
VP_ENTRY(e04_break) { float x = vp::grid("x", 0, 15, 1); History({R2(0, 0), R2(3, 0), Gap(4, 0)}, {R2(5, 0), R2(6, 1)}, {R2(x, 3)}, {R2(12, 3)}); }
VP_ENTRY(e04_volatile_break) { float x = vp::grid("x", 0, 15, 1); History({R2(0, 0), R2(3, 0)}, {Gap(5, 0), R2(6, 1)}, {R2(x, 3)}, {R2(12, 3)}); }
VP_ENTRY(e04_swallow) { float d = vp::grid("d", 0, 15, 0); History({Big(0, 0, 1), Big(1, 0, 1)}, {Big(1, 0, d)}, {Big(3, 0, 1)}, {Big(4, 1, 1)}); }
VP_ENTRY(e04_swallow_fixed) { float d = vp::grid("d", 0, 15, 0); History({R2(-6, 0), R2(-3, 0), Gap(-2, 0), R2(0, 0)}, {R2(1, 0)}, {Big(1, 0, d)}, {Big(1, 0, 9)}); }
VP_ENTRY(e04_restart_swallow) { float d = vp::grid("d", 0, 15, 0); Restart({Big(0, 0, 1), Big(1, 0, 1)}, {Big(1, 0, d)}, {Big(0, 0, 1), Big(1, 1, 1)}, {Big(1, 0, d)}, {Big(3, 0, 1)}, {Big(4, 1, 1)}); }
VP_ENTRY(e04_restart_empty) { float d = vp::grid("d", 0, 15, 0); Restart({Big(0, 0, 1), Big(1, 0, 1)}, {Big(1, 0, d)}, {}, {Big(1, 0, 2), Big(3, 0, 1)}, {Big(3, 0, 1)}, {Big(4, 1, 1)}); }
VP_ENTRY(e04_idle) { float x = vp::grid("x", 0, 15, 1); Restart({}, {R2(0, 0)}, {R2(0, 0), R2(3, 0)}, {Gap(5, 0), R2(6, 1)}, {R2(x, 3)}, {R2(12, 3), Gap(0, 0)}); }
VP_ENTRY(e04_swallow_twice) { float d = vp::grid("d", 0, 15, 0); History({Big(0, 0, 1), Big(1, 0, 1), Big(2, 0, 1)}, {Big(1, 0, d), Big(2, 0, 1), Big(1, 0, 17)}, {Big(3, 0, 1)}, {Big(4, 1, 1)}); }
// a vertex that sticks out a little and is simplified away by the next state
VP_ENTRY(e04_simplified) { float y = vp::grid("y", 0, 15, 5); History({R2(0, 0), R2(3, y), R2(6, 0)}, {}, {R2(9, 0)}, {R2(12, 0)}); }

// a hairpin: forward, around a turn of the given radius, and back
static Sts Hairpin(float r, float w, float round, float back) {
  Sts s; for (int i = 0; i < 3; ++i) s.push_back(St(i * 1.5f, 0, w, w, round)); for (int i = 1; i <= 4; ++i) { float a = i * 3.14159265f / 4; s.push_back(St(3 + r * std::sin(a), r - r * std::cos(a), w, w, round)); } for (int i = 1; i <= 4; ++i) s.push_back(St(3 - i * back, 2 * r, w, w, round)); return s;
}
static void Hair(float r, float w, float round, float back) { float y = vp::grid("y", -8, 7, 2); Sts h = Hairpin(r, w, round, back); Sts f2(h.begin() + 5, h.end()), f1(h.begin(), h.begin() + 5); Sts v{St(-4, y, w, w, round)}; History(f1, f2, f2, v); }
VP_ENTRY(e04_hairpin_tight) { Hair(0.5f, 2, 1, 1); }
VP_ENTRY(e04_hairpin_rect) { Hair(0.5f, 2, 0, 0.5f); }
VP_ENTRY(e04_hairpin_wide) { Hair(1.5f, 2, 1, 1.5f); }
VP_ENTRY_T(e04_zigzag) { float y = vp::grid("y", -8, 7, 2); Sts a, b; for (int i = 0; i < 5; ++i) a.push_back(St(i * 0.75f, (i & 1) ? 1.5f : 0, 3, 3, 1)); for (int i = 0; i < 4; ++i) b.push_back(St(3 - i * 0.75f, 1 + ((i & 1) ? 1.5f : 0), 3, 3, 1)); History(a, b, b, {St(5, y, 3, 3, 1)}); }
// walks (found by searching for coverage) with a symbolic offset of one of the late states; antialiasing derivatives and margins are
// updated incrementally and not compared here
static void WalkCase(int seed, int late, int lo, int hi) { float d = vp::grid("d", lo, hi, 5); Walk w(seed); int n = 6 + seed % 6, k = n / 2; Sts s = w.Make(n); s[n - late].position.x += d; Sts f2(s.begin() + k, s.end() - 1); History(Sts(s.begin(), s.begin() + k), f2, f2, Sts(s.end() - 1, s.end()), 0.125f, false); }
VP_ENTRY(e04_walk_300679) { WalkCase(300679, 1, 0, 1); }
VP_ENTRY_T(e04_walkt_300679) { WalkCase(300679, 2, 0, 3); }
VP_ENTRY(e04_walk_600383) { WalkCase(600383, 1, 0, 3); }
VP_ENTRY_T(e04_walkt_600383) { WalkCase(600383, 2, 0, 3); }
VP_ENTRY(e04_walk_243059) { WalkCase(243059, 1, 0, 3); }
VP_ENTRY_T(e04_walkt_243059) { WalkCase(243059, 2, 0, 3); }
VP_ENTRY(e04_walk_35809) { WalkCase(35809, 1, 0, 1); }
VP_ENTRY_T(e04_walkt_35809) { WalkCase(35809, 2, 0, 3); }
VP_ENTRY(e04_walk_101705) { WalkCase(101705, 1, 0, 3); }
VP_ENTRY_T(e04_walkt_101705) { WalkCase(101705, 2, 0, 3); }
VP_ENTRY(e04_walk_98691) { WalkCase(98691, 1, 0, 3); }
VP_ENTRY_T(e04_walkt_98691) { WalkCase(98691, 2, 0, 3); }
VP_ENTRY(e04_walk_501090) { WalkCase(501090, 1, 0, 3); }
VP_ENTRY_T(e04_walkt_501090) { WalkCase(501090, 2, 0, 3); }
VP_ENTRY(e04_walk_206757) { WalkCase(206757, 1, 0, 1); }
VP_ENTRY_T(e04_walkt_206757) { WalkCase(206757, 2, 0, 3); }

VP_ENTRY_T(e04_walk_53519) { WalkCase(53519, 2, 0, 7); }
VP_ENTRY_T(e04_walk_702359) { WalkCase(702359, 2, 0, 7); }
VP_ENTRY_T(e04_walk_100379) { WalkCase(100379, 2, 0, 7); }
VP_ENTRY_T(e04_walk_304696) { WalkCase(304696, 2, 0, 7); }
VP_ENTRY_T(e04_walk_209452) { WalkCase(209452, 2, 0, 7); }
VP_ENTRY_T(e04_walk_701009) { WalkCase(701009, 2, 0, 7); }
VP_ENTRY_T(e04_walk_300562) { WalkCase(300562, 2, 0, 7); }
VP_ENTRY_T(e04_walk_695) { WalkCase(695, 2, 0, 7); }

