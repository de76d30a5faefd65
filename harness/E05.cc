// SRC: ink/strokes/in_progress_stroke.cc ink/strokes/stroke.cc ink/strokes/internal/stroke_shape_builder.cc ink/strokes/internal/stroke_vertex.cc ink/strokes/internal/legacy_vertex.cc ink/strokes/internal/stroke_shape_update.cc ink/strokes/internal/stroke_input_modeler.cc ink/strokes/internal/stroke_outline.cc ink/strokes/internal/brush_tip_modeler.cc ink/strokes/internal/brush_tip_modeler_helpers.cc ink/strokes/internal/brush_tip_state.cc ink/strokes/internal/easing_implementation.cc ink/strokes/internal/brush_tip_extruder.cc ink/strokes/internal/brush_tip_extrusion.cc ink/strokes/internal/brush_tip_shape.cc ink/strokes/internal/circular_extrusion_helpers.cc ink/strokes/internal/constrain_brush_tip_extrusion.cc ink/strokes/internal/rounded_polygon.cc ink/strokes/internal/brush_tip_extruder/geometry.cc ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc ink/strokes/internal/brush_tip_extruder/derivative_calculator_helpers.cc ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc ink/strokes/internal/brush_tip_extruder/find_clockwise_winding_segment.cc ink/strokes/internal/brush_tip_extruder/simplify.cc ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc ink/strokes/internal/brush_tip_extruder/extruded_vertex.cc ink/brush/brush.cc ink/brush/brush_family.cc ink/brush/brush_coat.cc ink/brush/brush_tip.cc ink/brush/brush_paint.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/color/color.cc ink/color/color_space.cc ink/types/uri.cc ink/types/duration.cc ink/types/physical_distance.cc ink/strokes/input/stroke_input_batch.cc ink/strokes/input/stroke_input.cc ink/strokes/input/internal/stroke_input_validation_helpers.cc ink/geometry/partitioned_mesh.cc ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/circle.cc ink/geometry/internal/legacy_segment_intersection.cc ink/geometry/internal/legacy_triangle_contains.cc ink/geometry/internal/legacy_vector_utils.cc ink/geometry/intersects.cc ink/geometry/distance.cc ink/geometry/affine_transform.cc ink/geometry/quad.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// FLAGS: -DVP_STRCAT
// OPT: budget=200
// OPT: total=600
// BOUND: strokes of 1 to 5 inputs with one coordinate, pressure or time symbolic on a grid of up to 8 values (thorough: 16); brushes with one or two coats of round, rectangular, pressure-dependent, time-dependent and particle tips; every way of delivering the inputs in up to 3 updates, with and without predictions
// ASSUME: the external ink-stroke-modeler library is replaced by the identity (each input gives one result at its position); its smoothing itself is outside this repository
#include <cstring>
#include <vector>

#include "ink/brush/brush.h"
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/stroke.h"
#include "vp.h"
using namespace ink;
// ---- stand-in for the stroke modeler: the identity
namespace ink::stroke_model {
absl::Status StrokeModeler::Reset(const StrokeModelParams&) { return absl::OkStatus(); }
absl::Status StrokeModeler::Update(const Input& i, std::vector<Result>& r) { Result x; x.position = i.position; x.velocity = {1, 0}; x.acceleration = {0, 0}; x.time = i.time; x.pressure = i.pressure; x.tilt = i.tilt; x.orientation = i.orientation; r.push_back(x); return absl::OkStatus(); }
void StrokeModeler::Save() {}
void StrokeModeler::Restore() {}
}  // namespace ink::stroke_model
static int Pick(const char* n, int hi) { return __vp_concretize(__vp_range(n, 0, hi)); }
struct In { float x, y, t, p; };
typedef std::vector<In> Ins;
static StrokeInputBatch Batch(const Ins& s, size_t from, size_t to) { StrokeInputBatch b; for (size_t i = from; i < to && i < s.size(); ++i) { StrokeInput in; in.position = {s[i].x, s[i].y}; in.elapsed_time = Duration32::Seconds(s[i].t); in.pressure = s[i].p; bool ok = b.Append(in).ok(); __vp_assert(ok, "valid input"); } return b; }
typedef BrushBehavior B;
static B Behavior(B::Source src, float lo, float hi, B::Target tgt, float a, float b) { B r; B::SourceNode s; s.source = src; s.source_out_of_range_behavior = B::OutOfRange::kClamp; s.source_value_range = {lo, hi}; B::TargetNode t; t.target = tgt; t.target_modifier_range = {a, b}; r.nodes = {s, t}; return r; }
enum Kind { kRound, kRect, kPressure, kTime, kRemaining, kParticles, kKinds };
static BrushTip Tip(int kind) {
  BrushTip t; switch (kind) {
    case kRound: break;
    case kRect: t.corner_rounding = 0; t.scale = {1, 0.5f}; break;
    case kPressure: t.behaviors.push_back(Behavior(B::Source::kNormalizedPressure, 0, 1, B::Target::kSizeMultiplier, 0.5f, 1.5f)); break;
    case kTime: t.behaviors.push_back(Behavior(B::Source::kTimeSinceInputInSeconds, 0, 4, B::Target::kSizeMultiplier, 1, 0.5f)); break;
    case kRemaining: t.behaviors.push_back(Behavior(B::Source::kDistanceRemainingInMultiplesOfBrushSize, 0, 2, B::Target::kSizeMultiplier, 0.5f, 1)); break;
    default: t.particle_gap_distance_scale = 2; break;
  } return t;
}
static Brush Make(std::vector<int> kinds, float size = 2, float eps = 0.25f) { std::vector<BrushCoat> c(kinds.size()); for (size_t i = 0; i < kinds.size(); ++i) c[i].tips = {Tip(kinds[i])}; auto f = BrushFamily::Create(c); __vp_assert(f.ok(), "family"); auto b = Brush::Create(*f, Color::Black(), size, eps); __vp_assert(b.ok(), "brush"); return *b; }
static bool Fin(float f) { return (f - f) == 0; }
static bool SameBox(const Envelope& a, const Envelope& b) { if (a.IsEmpty() || b.IsEmpty()) return a.IsEmpty() && b.IsEmpty(); Rect x = *a.AsRect(), y = *b.AsRect(); return (x.XMin() == y.XMin()) & (x.XMax() == y.XMax()) & (x.YMin() == y.YMin()) & (x.YMax() == y.YMax()); }
static bool Holds(const Envelope& e, Point p) { if (e.IsEmpty()) return false; Rect r = *e.AsRect(); return (p.x >= r.XMin()) & (p.x <= r.XMax()) & (p.y >= r.YMin()) & (p.y <= r.YMax()); }
typedef std::vector<std::vector<uint32_t>> Outlines;
struct Snap { std::vector<std::byte> v, i; std::vector<Point> p; std::vector<std::array<uint32_t, 3>> t; Outlines o; Envelope b; };
static Snap Take(const InProgressStroke& s, uint32_t c) { Snap r; const MutableMesh& m = s.GetMesh(c); auto a = m.RawVertexData(); auto b = m.RawIndexData(); r.v.assign(a.begin(), a.end()); r.i.assign(b.begin(), b.end()); for (uint32_t k = 0; k < m.VertexCount(); ++k) r.p.push_back(m.VertexPosition(k)); for (uint32_t k = 0; k < m.TriangleCount(); ++k) r.t.push_back(m.TriangleIndices(k)); for (auto& o : s.GetCoatOutlines(c)) r.o.emplace_back(o.begin(), o.end()); r.b = s.GetMeshBounds(c); return r; }
static std::vector<Snap> TakeAll(const InProgressStroke& s) { std::vector<Snap> r; for (uint32_t c = 0; c < s.BrushCoatCount(); ++c) r.push_back(Take(s, c)); return r; }
// each coat: a mesh of finite vertices and proper triangles, its bounds, non-empty outlines that visit every vertex once
static void Valid(const std::vector<Snap>& all) {
  for (const Snap& s : all) { uint32_t n = s.p.size(); Envelope box; for (Point p : s.p) { __vp_assert(Fin(p.x) & Fin(p.y), "positions are finite"); box.Add(p); } __vp_assert(SameBox(box, s.b), "bounds are the box of the mesh"); for (auto& t : s.t) { __vp_assert((t[0] < n) & (t[1] < n) & (t[2] < n), "triangle indices are in range"); __vp_assert((t[0] != t[1]) & (t[0] != t[2]) & (t[1] != t[2]), "triangle indices are distinct"); } std::vector<int> seen(n); for (auto& o : s.o) { __vp_assert(!o.empty(), "outlines are not empty"); for (uint32_t i : o) { __vp_assert(i < n, "outline indices are in range"); if (i < n) ++seen[i]; } } for (uint32_t i = 0; i < n; ++i) __vp_assert(seen[i] == 1, "every vertex is on exactly one outline"); }
}
// the updated region covers every triangle that appeared, disappeared or changed
static void Region(const std::vector<Snap>& o, const std::vector<Snap>& w, const Envelope& e) {
  for (size_t c = 0; c < w.size(); ++c) for (size_t k = 0; k < w[c].t.size() || k < o[c].t.size(); ++k) { bool same = k < w[c].t.size() && k < o[c].t.size() && w[c].t[k] == o[c].t[k]; if (same) for (uint32_t i : w[c].t[k]) same = same && i < o[c].p.size() && o[c].p[i] == w[c].p[i]; if (same) continue; for (const Snap* x : {&o[c], &w[c]}) if (k < x->t.size()) for (uint32_t i : x->t[k]) __vp_assert(Holds(e, x->p[i]), "the updated region covers every change"); }
}
static void Same(const std::vector<Snap>& a, const std::vector<Snap>& b, bool bytes) {
  __vp_assert(a.size() == b.size(), "same number of coats"); if (a.size() != b.size()) return;
  for (size_t c = 0; c < a.size(); ++c) { const Snap &x = a[c], &y = b[c]; __vp_assert(x.p.size() == y.p.size() && x.t.size() == y.t.size() && x.o.size() == y.o.size(), "same mesh size"); if (x.p.size() != y.p.size() || x.t.size() != y.t.size() || x.o.size() != y.o.size()) return; for (size_t k = 0; k < x.t.size(); ++k) __vp_assert(x.t[k] == y.t[k], "same triangles"); for (size_t k = 0; k < x.p.size(); ++k) __vp_assert((x.p[k].x == y.p[k].x) & (x.p[k].y == y.p[k].y), "same positions"); __vp_assert(x.o == y.o, "same outlines"); __vp_assert(SameBox(x.b, y.b), "same bounds"); if (bytes) __vp_assert(x.v.size() == y.v.size() && std::memcmp(x.v.data(), y.v.data(), x.v.size()) == 0, "same vertices"); }
}
static void SameShape(const Stroke& a, const Stroke& b) {
  const PartitionedMesh &p = a.GetShape(), &q = b.GetShape(); __vp_assert(p.RenderGroupCount() == q.RenderGroupCount(), "same number of groups"); if (p.RenderGroupCount() != q.RenderGroupCount()) return;
  for (uint32_t g = 0; g < p.RenderGroupCount(); ++g) { auto m = p.RenderGroupMeshes(g), n = q.RenderGroupMeshes(g); __vp_assert(m.size() == n.size(), "same number of meshes"); if (m.size() != n.size()) return; for (size_t i = 0; i < m.size(); ++i) { auto x = m[i].RawVertexData(), y = n[i].RawVertexData(); __vp_assert(x.size() == y.size() && std::memcmp(x.data(), y.data(), x.size()) == 0, "same packed vertices"); auto u = m[i].RawIndexData(), v = n[i].RawIndexData(); __vp_assert(u.size() == v.size() && std::memcmp(u.data(), v.data(), u.size()) == 0, "same packed triangles"); } __vp_assert(p.OutlineCount(g) == q.OutlineCount(g), "same number of outlines"); if (p.OutlineCount(g) != q.OutlineCount(g)) return; for (uint32_t o = 0; o < p.OutlineCount(g); ++o) { auto x = p.Outline(g, o), y = q.Outline(g, o); bool same = x.size() == y.size(); for (size_t k = 0; same && k < x.size(); ++k) same = x[k].mesh_index == y[k].mesh_index && x[k].vertex_index == y[k].vertex_index; __vp_assert(same, "same outlines"); } }
}
static Ins Path(int n, float v) { Ins s{{0, 0, 0, 0.5f}, {3, 0.5f, 1, 0.25f}, {6, v, 2, 0.75f}, {4, 4, 3, 1}, {1, 5, 4, 0.5f}}; s.resize(n); return s; }
// inputs cut into up to three updates with predictions that are later replaced
static void Deliver(InProgressStroke& s, const Brush& b, const Ins& in, size_t a, size_t c, int pred, float end) {
  s.Start(b); size_t n = in.size(); size_t cut[4] = {0, a, c, n}; float now = 0;
  for (int k = 0; k < 3; ++k) { StrokeInputBatch p; if (pred && k < 2 && cut[k + 1] < n) { Ins q = in; for (auto& i : q) { i.x += pred == 2 ? 0 : 1; i.y -= pred == 2 ? 0 : 2; } p = Batch(q, cut[k + 1], cut[k + 1] + 2); } bool ok = s.EnqueueInputs(Batch(in, cut[k], cut[k + 1]), p).ok(); __vp_assert(ok, "inputs are accepted"); if (k == 2) { s.FinishInputs(); now = end; } auto before = TakeAll(s); s.ResetUpdatedRegion(); ok = s.UpdateShape(Duration32::Seconds(now)).ok(); __vp_assert(ok, "updated"); auto after = TakeAll(s); Valid(after); Region(before, after, s.GetUpdatedRegion()); }
}
static void Split(std::vector<int> kinds, int n, const Ins& in, int pred = -1) {
  Brush b = Make(kinds); float end = in.back().t; InProgressStroke whole; Deliver(whole, b, in, 0, 0, 0, end); auto w = TakeAll(whole); Stroke direct(b, Batch(in, 0, n)); SameShape(whole.CopyToStroke(), direct);
  if (pred < 0) pred = Pick("pred", 2); int a = Pick("a", n), c = a + Pick("c", n - a); InProgressStroke parts; Deliver(parts, b, in, a, c, pred, end); Same(TakeAll(parts), w, false); __vp_assert(parts.GetInputs().Size() == (size_t)n && parts.PredictedInputCount() == 0, "all inputs are processed"); __vp_assert(!whole.NeedsUpdate() == !parts.NeedsUpdate(), "whether updates are needed does not depend on how the inputs came"); __vp_reach("end");
}
VP_ENTRY(e05_split_round0) { Split({kRound}, 3, Path(3, vp::grid("v", -2, 1, 0)), 0); }
VP_ENTRY(e05_split_round1) { Split({kRound}, 3, Path(3, vp::grid("v", -1, 0, 0)), 1); }
VP_ENTRY(e05_split_round2) { Split({kRound}, 3, Path(3, vp::grid("v", -2, 1, 0)), 2); }
VP_ENTRY_T(e05_splitt_round) { Split({kRound}, 3, Path(3, vp::grid("v", -8, 7, 1))); }
VP_ENTRY(e05_split_rect) { Split({kRect}, 3, Path(3, vp::grid("v", -1, 0, 0))); }
VP_ENTRY_T(e05_splitt_rect) { Split({kRect}, 3, Path(3, vp::grid("v", -8, 7, 1))); }
VP_ENTRY(e05_split_pressure0) { Split({kPressure}, 3, Path(3, vp::grid("v", -2, 1, 0)), 0); }
VP_ENTRY(e05_split_pressure1) { Split({kPressure}, 3, Path(3, vp::grid("v", -1, 0, 0)), 1); }
VP_ENTRY(e05_split_pressure2) { Split({kPressure}, 3, Path(3, vp::grid("v", -2, 1, 0)), 2); }
VP_ENTRY_T(e05_splitt_pressure) { Split({kPressure}, 3, Path(3, vp::grid("v", -8, 7, 1))); }
VP_ENTRY(e05_split_remaining0) { Split({kRemaining}, 3, Path(3, vp::grid("v", -2, 1, 0)), 0); }
VP_ENTRY(e05_split_remaining1) { Split({kRemaining}, 3, Path(3, vp::grid("v", -1, 0, 0)), 1); }
VP_ENTRY(e05_split_remaining2) { Split({kRemaining}, 3, Path(3, vp::grid("v", -2, 1, 0)), 2); }
VP_ENTRY_T(e05_splitt_remaining) { Split({kRemaining}, 3, Path(3, vp::grid("v", -8, 7, 1))); }
VP_ENTRY(e05_split_particles) { Split({kParticles}, 3, Path(3, vp::grid("v", -2, 1, 0))); }
VP_ENTRY_T(e05_splitt_particles) { Split({kParticles}, 3, Path(3, vp::grid("v", -8, 7, 1))); }
VP_ENTRY_T(e05_splitt4) { Split({Pick("kind", kKinds - 1)}, 4, Path(4, vp::grid("v", -1, 0, 0))); }
VP_ENTRY(e05_split_two) { Split({kRound, kRect}, 2, Path(2, 0)); }
// a stroke depends on its brush and inputs only, not on what was made before with the same (or another) stroke object
static void Reuse(int first, int second) {
  float v = vp::grid("v", -2, 1, 0); Ins in = Path(3, v), junk = Path(5, 1); InProgressStroke fresh, used; Brush b = Make({second}); int coats = Pick("coats", 1), unfinished = Pick("unfinished", 1);
  Brush o = Make(coats ? std::vector<int>{first, second} : std::vector<int>{first}, 5, 0.5f); if (unfinished) { used.Start(o); bool ok = used.EnqueueInputs(Batch(junk, 0, 2), Batch(junk, 2, 5)).ok() && used.UpdateShape(Duration32::Seconds(9)).ok(); __vp_assert(ok, "a first stroke"); } else Deliver(used, o, junk, 2, 4, 1, 9);
  Deliver(used, b, in, 0, 1, 0, 2); Deliver(fresh, b, in, 0, 1, 0, 2); Same(TakeAll(used), TakeAll(fresh), true); Stroke x(b, Batch(in, 0, 3)); Stroke y(o, Batch(junk, 0, 5)); Stroke z(b, Batch(in, 0, 3)); SameShape(x, z); __vp_reach("end");
}
VP_ENTRY(e05_reuse_round) { Reuse(kRemaining, kRound); }
VP_ENTRY(e05_reuse_rect) { Reuse(kParticles, kRect); }
VP_ENTRY(e05_reuse_particles) { Reuse(kTime, kParticles); }
VP_ENTRY(e05_reuse_remaining) { Reuse(kPressure, kRemaining); }
// when no update is needed, an update at any later time changes nothing
VP_ENTRY(e05_quiet) {
  int kind = Pick("kind", kKinds - 1), pred = Pick("pred", 1), finish = Pick("finish", 1); Brush b = Make({kind}); Ins in = Path(3, 1); float t = vp::grid("t", 0, 7, 0); InProgressStroke s; s.Start(b); bool ok = s.EnqueueInputs(Batch(in, 0, 2), pred ? Batch(in, 2, 3) : StrokeInputBatch()).ok(); __vp_assert(ok, "inputs"); if (finish) s.FinishInputs(); __vp_assert(s.NeedsUpdate(), "queued inputs need an update"); ok = s.UpdateShape(Duration32::Seconds(t)).ok(); __vp_assert(ok, "updated"); auto before = TakeAll(s); bool needs = s.NeedsUpdate(); s.ResetUpdatedRegion(); float later = t + 0.5f * Pick("later", 1); bool shown = s.PredictedInputCount() > 0; if (needs && kind != kTime) __vp_assert(s.PredictedInputCount() > 0, "only predictions or time behaviors leave a need for updates"); ok = s.UpdateShape(Duration32::Seconds(later)).ok(); __vp_assert(ok, "updated again"); auto after = TakeAll(s); Valid(after); Region(before, after, s.GetUpdatedRegion()); if (!needs && !shown) { Same(before, after, true); __vp_assert(!s.NeedsUpdate(), "still no update needed"); __vp_reach("quiet"); } __vp_reach("end");
}
// the shape covers the whole path of a plain tip
static bool Covered(const Snap& s, Point q) { bool in = false; for (auto& t : s.t) { auto side = [&](Point a, Point b) { return (b.x - a.x) * (q.y - a.y) - (b.y - a.y) * (q.x - a.x) >= -1e-3f; }; Point a = s.p[t[0]], b = s.p[t[1]], c = s.p[t[2]]; in |= side(a, b) & side(b, c) & side(c, a); } return in; }
static void Cover(int kind, int lo, int hi) { float v = vp::grid("v", lo, hi, 1); Ins in = Path(4, v); InProgressStroke s; Deliver(s, Make({kind}), in, 1, 2, 1, 3); Snap m = Take(s, 0); for (size_t i = 0; i < in.size(); ++i) { __vp_assert(Covered(m, {in[i].x, in[i].y}), "every input is covered"); if (i) __vp_assert(Covered(m, {(in[i].x + in[i - 1].x) / 2, (in[i].y + in[i - 1].y) / 2}), "the path between inputs is covered"); } __vp_reach("end"); }
VP_ENTRY(e05_cover_round) { Cover(kRound, -1, 0); }
VP_ENTRY(e05_cover_pressure) { Cover(kPressure, -1, 0); }
VP_ENTRY_T(e05_covert_round) { Cover(kRound, -4, 3); }
VP_ENTRY_T(e05_covert_pressure) { Cover(kPressure, -4, 3); }
// a single input makes a dot of the tip's shape around it
VP_ENTRY(e05_dot) { int kind = Pick("kind", 1); float x = vp::grid("x", -8, 7, 2); int k = Pick("size", 2); float size = k == 0 ? 1 : k == 1 ? 2 : 8; Stroke s(Make({kind}, size, 0.25f), Batch({{x, 3, 0, 0.5f}}, 0, 1)); Envelope e = s.GetShape().Bounds(); __vp_assert(!e.IsEmpty(), "there is a dot"); if (e.IsEmpty()) return; Rect r = *e.AsRect(); float hw = size / 2, hh = kind == kRect ? size / 4 : size / 2, tol = 0.25f + size / 1024; auto near = [&](float a, float b) { return (a - b <= tol) & (b - a <= tol); }; __vp_assert(near(r.XMin(), x - hw) & near(r.XMax(), x + hw) & near(r.YMin(), 3 - hh) & near(r.YMax(), 3 + hh), "the dot has the tip's size around the input"); __vp_reach("end"); }
