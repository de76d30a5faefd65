// SRC: ink/strokes/in_progress_stroke.cc ink/strokes/stroke.cc ink/strokes/internal/stroke_vertex.cc ink/strokes/internal/stroke_shape_update.cc ink/strokes/internal/stroke_input_modeler.cc ink/strokes/internal/brush_tip_extruder.cc ink/strokes/internal/brush_tip_extruder/geometry.cc ink/brush/brush.cc ink/brush/brush_family.cc ink/brush/brush_coat.cc ink/brush/brush_tip.cc ink/brush/brush_paint.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/color/color.cc ink/color/color_space.cc ink/types/uri.cc ink/types/duration.cc ink/types/physical_distance.cc ink/strokes/input/stroke_input_batch.cc ink/strokes/input/stroke_input.cc ink/strokes/input/internal/stroke_input_validation_helpers.cc ink/geometry/partitioned_mesh.cc ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/internal/algorithms.cc ink/geometry/affine_transform.cc ink/geometry/quad.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// FLAGS: -DVP_STRCAT
// OPT: budget=250
// BOUND: every sequence of 4 calls (thorough: 5) after Start() of enqueueing 0 to 2 real and 0 to 2 predicted inputs, finishing and updating, and of 3 calls including Clear, Start, ResetUpdatedRegion and CopyToStroke; brushes with one or two coats; any first time in [0,3] and either tool type for each batch; any update time
// ASSUME: StrokeShapeBuilder is replaced by a stand-in that keeps its documented contract (S06, K04 decide parts of the real one)
#include "builder_ref.h"
#include "ink/brush/brush.h"
#include "ink/strokes/in_progress_stroke.h"
#include "vp.h"
using namespace ink;
typedef StrokeInput::ToolType TT;
struct In { float x, t; bool mouse; };
static int Pick(const char* n, int hi) { return __vp_concretize(__vp_range(n, 0, hi)); }
static StrokeInputBatch Batch(const std::vector<In>& v) { StrokeInputBatch b; for (const In& i : v) { StrokeInput s; s.tool_type = i.mouse ? TT::kMouse : TT::kTouch; s.position = {i.x, 1}; s.elapsed_time = Duration32::Seconds(i.t); bool ok = b.Append(s).ok(); __vp_assert(ok, "a consistent batch is accepted"); } return b; }
static Brush MakeBrush(int coats, float size, bool shifts = false) { std::vector<BrushCoat> c(coats); for (auto& x : c) x.tips.resize(1); if (coats == 2) { c[1].tips[0].pinch = 0.5f; BrushBehavior b; BrushBehavior::ConstantNode k; k.value = 0.5f; BrushBehavior::TargetNode t; t.target = BrushBehavior::Target::kLuminosity; t.target_modifier_range = {0, 1}; b.nodes = {k, t}; c[1].tips[0].behaviors = {b}; } auto f = BrushFamily::Create(c); __vp_assert(f.ok(), "family"); auto b = Brush::Create(*f, Color::Black(), size, 0.5f); __vp_assert(b.ok(), "brush"); return *b; }
static bool Ok(const In& a, const In& b) { return (a.mouse == b.mouse) & (a.t <= b.t); } // positions always differ
struct Model {
  bool started = false, finished = true; std::vector<In> real, pred, qreal, qpred; float now = 0; int coats = 0; float size = 0; Envelope region; int id = 0;
  bool Accepts(const std::vector<In>& r, const std::vector<In>& p) const { bool ok = true; const In* last = !qreal.empty() ? &qreal.back() : !real.empty() ? &real.back() : nullptr; const In* first = !r.empty() ? &r.front() : !p.empty() ? &p.front() : nullptr; if (last && first) ok = Ok(*last, *first); if (!r.empty() && !p.empty()) ok = ok & Ok(r.back(), p.front()); return ok; }
};
static void Tri(Envelope& e, const Model& m, const In& i) { e.Add(Point{i.x, 1}); e.Add(Point{i.x + m.size, 1}); e.Add(Point{i.x, 1.5f}); }
static void Check(const InProgressStroke& s, const Model& m, bool deep) {
  const StrokeInputBatch& b = s.GetInputs(); __vp_assert((s.InputCount() == m.real.size() + m.pred.size()) & (b.Size() == s.InputCount()) & (s.RealInputCount() == m.real.size()) & (s.PredictedInputCount() == m.pred.size()), "input counts"); if (b.Size() != m.real.size() + m.pred.size()) return;
  std::vector<In> all = m.real; for (const In& i : m.pred) all.push_back(i); for (size_t i = 0; i < all.size(); ++i) { StrokeInput g = b.Get(i); __vp_assert((g.position.x == all[i].x) & (g.elapsed_time.ToSeconds() == all[i].t) & ((g.tool_type == TT::kMouse) == all[i].mouse), "the inputs are the accepted real ones followed by the latest predictions"); }
  __vp_assert((s.GetBrush() != nullptr) == m.started && (int)s.BrushCoatCount() == m.coats, "brush"); __vp_assert(s.InputsAreFinished() == m.finished, "finished"); bool pending = !m.qreal.empty() || !m.qpred.empty() || (m.finished && !m.pred.empty()); __vp_assert(s.NeedsUpdate() == (pending || (m.coats > 0 && (builder_ref::log.busy == 1 || (builder_ref::log.busy == 2 && m.coats == 2) || builder_ref::log.busy == 3))), "an update is needed for queued inputs, running animations, and predictions left after finishing");
  for (int c = 0; c < m.coats; ++c) { const MutableMesh& g = s.GetMesh(c); __vp_assert(g.TriangleCount() == all.size(), "the geometry reflects the inputs"); for (size_t i = 0; i < all.size() && i < g.TriangleCount(); ++i) __vp_assert((g.VertexPosition(3 * i).x == all[i].x) & (g.VertexPosition(3 * i + 1).x == all[i].x + m.size), "the geometry is that of the inputs and the brush"); __vp_assert(s.GetCoatOutlines(c).size() == all.size(), "outlines of this coat"); }
  auto r = s.GetUpdatedRegion().AsRect(), q = m.region.AsRect(); __vp_assert(r.has_value() == q.has_value(), "updated region"); if (r && q) __vp_assert((r->XMin() == q->XMin()) & (r->XMax() == q->XMax()) & (r->YMin() == q->YMin()) & (r->YMax() == q->YMax()), "updated region since the start or reset");
}
static void Start(InProgressStroke& s, Model& m, int coats, float size) { s.Start(MakeBrush(coats, size)); int id = m.id; m = Model(); m.id = id; m.started = true; m.finished = false; m.coats = coats; m.size = size; }
static void Enqueue(InProgressStroke& s, Model& m, int nr, int np) {
  std::vector<In> r, p; auto fill = [&](std::vector<In>& v, int n, const char* t, const char* k) { if (!n) return; In i{0, (float)__vp_range(t, 0, 3), __vp_bool(k)}; for (int j = 0; j < n; ++j) { i.x = (float)++m.id; v.push_back(i); i.t += 1; } }; fill(r, nr, "rt", "rm"); fill(p, np, "pt", "pm");
  bool want = m.started && !m.finished; if (want) want = m.Accepts(r, p); absl::Status st = s.EnqueueInputs(Batch(r), Batch(p)); __vp_assert(st.ok() == want, "inputs are accepted exactly between start and finish and when they continue the real inputs"); if (want) { for (const In& i : r) m.qreal.push_back(i); m.qpred = p; } __vp_reach(want ? "accepted" : "rejected");
}
static void Update(InProgressStroke& s, Model& m) {
  float t = __vp_f32("now"); Duration32 d = Duration32::Seconds(t); float v = d.ToSeconds(); bool want = m.started & (v >= 0) & (v >= m.now); int before = builder_ref::log.extends; absl::Status st = s.UpdateShape(d); __vp_assert(st.ok() == want, "updates need a start and times that do not decrease");
  __vp_assert(builder_ref::log.extends - before == (want ? m.coats : 0), "each coat is extended once"); if (!want) return; __vp_assert(builder_ref::log.times.empty() || builder_ref::log.times.back() == v, "with the time of the update"); m.now = v; for (const In& i : m.pred) Tri(m.region, m, i); m.pred = m.qpred; for (const In& i : m.qreal) { m.real.push_back(i); Tri(m.region, m, i); } for (const In& i : m.pred) Tri(m.region, m, i); m.qreal.clear(); m.qpred.clear();
}
static void Step(InProgressStroke& s, Model& m) {
  static const int nr[] = {0, 1, 0, 1, 2}, np[] = {0, 0, 1, 1, 2}; int op = Pick("op", 6); if (op < 5) Enqueue(s, m, nr[op], np[op]); else if (op == 5) { s.FinishInputs(); m.finished = true; m.qpred.clear(); } else Update(s, m);
}
static bool Near(float a, float b) { float d = a - b; return (d <= 0.02f) & (d >= -0.02f); }
static void Copy(InProgressStroke& s, Model& m, bool used_only) {
  if (!m.started) return; Stroke c = s.CopyToStroke(used_only ? InProgressStroke::RetainAttributes::kUsedByThisBrush : InProgressStroke::RetainAttributes::kAll); __vp_assert(c.GetInputs().Size() == m.real.size() + m.pred.size() && c.GetBrush().GetSize() == m.size, "the copy has the inputs and the brush"); __vp_assert((int)c.GetShape().RenderGroupCount() == m.coats, "one group per coat"); std::vector<In> all = m.real; for (const In& i : m.pred) all.push_back(i);
  for (int g = 0; g < m.coats; ++g) { auto ms = c.GetShape().RenderGroupMeshes(g); size_t n = 0; for (const Mesh& x : ms) n += x.TriangleCount(); __vp_assert(n == all.size(), "the copy has the geometry"); __vp_assert(c.GetShape().OutlineCount(g) == all.size(), "and the outlines"); if (!all.empty()) { __vp_assert((int)c.GetShape().RenderGroupFormat(g).Attributes().size() == (!used_only ? 8 : g == 1 ? 7 : 6), "attributes are retained as asked"); Triangle t = ms[0].GetTriangle(0); __vp_assert(Near(t.p0.x, all[0].x) & Near(t.p1.x, all[0].x + m.size), "at its positions"); } }
}
static void Sequence(int coats, int first, int steps) { builder_ref::log = {}; InProgressStroke s; Model m; Start(s, m, coats, 2); builder_ref::log.busy = Pick("busy", coats == 2 ? 3 : 1); static const int nr[] = {0, 1, 0, 1, 2}, np[] = {0, 0, 1, 1, 2}; if (first >= 0) { Enqueue(s, m, nr[first], np[first]); Check(s, m, false); } for (int i = 0; i < steps; ++i) { Step(s, m); Check(s, m, false); } __vp_reach("end"); }
VP_ENTRY(s04_real) { Sequence(1, 1, 3); }
VP_ENTRY(s04_predicted) { Sequence(1, 2, 3); }
VP_ENTRY(s04_both) { Sequence(2, 3, 3); }
VP_ENTRY(s04_any) { Sequence(1, -1, 2); }
VP_ENTRY_T(s04_real_deep) { Sequence(1, 1, 4); }
VP_ENTRY_T(s04_predicted_deep) { Sequence(1, 2, 4); }
VP_ENTRY_T(s04_both_deep) { Sequence(1, 3, 4); }
VP_ENTRY_T(s04_two_deep) { Sequence(1, 4, 4); }
VP_ENTRY(s04_restart) { // Clear, Start, ResetUpdatedRegion, CopyToStroke in between
  builder_ref::log = {}; InProgressStroke s; Model m; Check(s, m, true); bool unstarted = Pick("unstarted", 1); if (!unstarted) { Start(s, m, 1, 2); Enqueue(s, m, 1, 1); if (Pick("u", 1)) Update(s, m); }
  for (int i = 0; i < 3; ++i) { switch (Pick("op", 6)) { case 0: { s.Clear(); int id = m.id; m = Model(); m.id = id; break; } case 1: Start(s, m, 1, 3); break; case 2: Start(s, m, 2, 1); break; case 3: s.ResetUpdatedRegion(); m.region.Reset(); break; case 4: Copy(s, m, i & 1); break; case 5: Enqueue(s, m, 1, 1); break; default: Update(s, m); } Check(s, m, true); } __vp_reach("end");
}
VP_ENTRY(s04_copy) { builder_ref::log = {}; InProgressStroke s; Model m; Start(s, m, 1 + Pick("coats", 1), 2); Enqueue(s, m, Pick("nr", 2), Pick("np", 2)); Update(s, m); Check(s, m, true); bool used = Pick("used", 1); Copy(s, m, used); Enqueue(s, m, 1, 0); Copy(s, m, !used); Update(s, m); Copy(s, m, used); Check(s, m, true); __vp_reach("end"); }
