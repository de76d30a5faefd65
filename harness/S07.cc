// SRC: ink/strokes/in_progress_stroke.cc ink/strokes/stroke.cc ink/strokes/internal/stroke_vertex.cc ink/strokes/internal/stroke_shape_update.cc ink/strokes/internal/stroke_input_modeler.cc ink/strokes/internal/brush_tip_extruder.cc ink/strokes/internal/brush_tip_extruder/geometry.cc ink/brush/brush.cc ink/brush/brush_family.cc ink/brush/brush_coat.cc ink/brush/brush_tip.cc ink/brush/brush_paint.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/color/color.cc ink/color/color_space.cc ink/types/uri.cc ink/types/duration.cc ink/types/physical_distance.cc ink/strokes/input/stroke_input_batch.cc ink/strokes/input/stroke_input.cc ink/strokes/input/internal/stroke_input_validation_helpers.cc ink/geometry/partitioned_mesh.cc ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/internal/algorithms.cc ink/geometry/affine_transform.cc ink/geometry/quad.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// FLAGS: -DVP_STRCAT
// OPT: budget=200
// BOUND: strokes of 0 to 2 inputs and 0 to 2 coats; any size and epsilon floats; every sequence of 3 setters from brushes that differ in color, size, epsilon, tip, paint, number of coats or nothing, and inputs that differ or are the stroke's own
// ASSUME: StrokeShapeBuilder is replaced by a stand-in that keeps its documented contract
#include "builder_ref.h"
#include "ink/brush/brush.h"
#include "ink/strokes/stroke.h"
#include "vp.h"
using namespace ink;
static int Pick(const char* n, int hi) { return __vp_concretize(__vp_range(n, 0, hi)); }
static StrokeInputBatch Inputs(int n, float x = 0) { StrokeInputBatch b; for (int i = 0; i < n; ++i) { StrokeInput s; s.position = {x + i, 1}; s.elapsed_time = Duration32::Seconds(i + 1.f); bool ok = b.Append(s).ok(); __vp_assert(ok, "input"); } return b; }
static BrushFamily Family(int kind) { // 0: one coat, 1: another tip, 2: another paint, 3: two coats, 4: none
  std::vector<BrushCoat> c(kind == 3 ? 2 : kind == 4 ? 0 : 1); for (auto& x : c) x.tips.resize(1); if (kind == 1) c[0].tips[0].pinch = 0.5f; if (kind == 2) { c[0].paint.texture_layers.resize(1); auto u = Uri::Parse("ink:/texture:a"); __vp_assert(u.ok(), "uri"); c[0].paint.texture_layers[0].color_texture_uri = *u; } auto f = BrushFamily::Create(c); __vp_assert(f.ok(), "family"); return *f; }
static Brush Make(int kind, float size = 2, float eps = 0.5f) { auto b = Brush::Create(Family(kind), Color::Black(), size, eps); __vp_assert(b.ok(), "brush"); return *b; }
static bool Tips(int a, int b) { auto k = [](int i) { return i == 2 ? 0 : i; }; return k(a) == k(b); }
static int Coats(int kind) { return kind == 3 ? 2 : kind == 4 ? 0 : 1; }
struct Model { int kind = 0, n = 0; float x = 0, size = 2, eps = 0.5f; Color color = Color::Black(); bool empty = true; };
static void Check(const Stroke& s, const Model& m) {
  const PartitionedMesh& p = s.GetShape(); __vp_assert((int)p.RenderGroupCount() == Coats(m.kind), "the shape has one group per coat"); __vp_assert((s.GetBrush().GetSize() == m.size) & (s.GetBrush().GetEpsilon() == m.eps) & (s.GetBrush().GetColor() == m.color) & (s.GetBrushFamily().GetCoats().size() == (size_t)Coats(m.kind)), "the brush"); __vp_assert(s.GetInputs().Size() == (size_t)m.n && s.GetInputDuration().ToSeconds() == (m.n ? m.n - 1.f : 0.f), "the inputs"); for (int i = 0; i < m.n && i < (int)s.GetInputs().Size(); ++i) __vp_assert(s.GetInputs().Get(i).position.x == m.x + i, "the inputs"); size_t total = 0; for (int g = 0; g < (int)p.RenderGroupCount(); ++g) { size_t k = 0; for (const Mesh& x : p.RenderGroupMeshes(g)) k += x.TriangleCount(); __vp_assert(k == (m.empty ? 0u : (size_t)m.n), "the shape is that of the inputs"); __vp_assert(p.OutlineCount(g) == k, "with its outlines"); total += k; if (k) { Triangle t = p.RenderGroupMeshes(g)[0].GetTriangle(0); float d = t.p0.x - m.x; __vp_assert((d <= 0.01f) & (d >= -0.01f), "where they are"); } }
}
static int Extends() { return builder_ref::log.extends; }
static int Expect(const Model& m) { return m.n ? Coats(m.kind) : 0; } // calls of the builder when the shape is generated
static bool Regen(Model& m) { m.empty = m.n == 0 || builder_ref::log.bad; return true; }
VP_ENTRY(s07_size) {
  builder_ref::log = {}; builder_ref::log.fixed = true; Model m; m.n = Pick("n", 2); Stroke s(Make(0), Inputs(m.n)); __vp_assert(Extends() == Expect(m), "generated once"); Regen(m); Check(s, m); float v = __vp_f32("v"); bool want = (v > 0) & (v <= 3.4028234e38f) & (v >= 0.5f); int before = Extends(); bool ok = s.SetBrushSize(v).ok(); __vp_assert(ok == want, "a size is accepted exactly when finite, positive and at least epsilon"); bool changed = want && v != 2; if (want) m.size = v; __vp_assert(Extends() - before == (changed ? Expect(m) : 0), "the shape is regenerated exactly when the size changes"); if (changed && m.n) __vp_assert(builder_ref::log.size == v, "with the new size"); Check(s, m); __vp_reach(ok ? "ok" : "rejected");
}
VP_ENTRY(s07_epsilon) {
  builder_ref::log = {}; builder_ref::log.fixed = true; Model m; m.n = Pick("n", 1); Stroke s(Make(0), Inputs(m.n)); Regen(m); float v = __vp_f32("v"); bool want = (v > 0) & (v <= 2); int before = Extends(); bool ok = s.SetBrushEpsilon(v).ok(); __vp_assert(ok == want, "an epsilon is accepted exactly when positive and at most the size"); bool changed = want && v != 0.5f; if (want) m.eps = v; __vp_assert(Extends() - before == (changed ? Expect(m) : 0), "the shape is regenerated exactly when epsilon changes"); if (changed && m.n) __vp_assert(builder_ref::log.epsilon == v, "with the new epsilon"); Check(s, m); __vp_reach(ok ? "ok" : "rejected");
}
VP_ENTRY(s07_check) { // a given shape must have one group per coat
  int kind = Pick("kind", 4), groups = Pick("groups", 3); if (groups != Coats(kind)) __vp_expect_check_fail(); Stroke s(Make(kind), Inputs(1), PartitionedMesh::WithEmptyGroups(groups)); __vp_assert(groups == Coats(kind), "a shape with other groups is refused"); __vp_assert(s.GetShape().RenderGroupCount() == (size_t)groups && s.GetInputs().Size() == 1, "it is kept"); __vp_reach("end");
}
static void Step(Stroke& s, Model& m, const StrokeInputBatch& other) {
  int before = Extends(), want = 0, op = Pick("op", 7);
  switch (op) {
    case 0: { int k = Pick("kind", 4); bool same = Tips(k, m.kind); s.SetBrush(Make(k)); bool diff = !same || m.size != 2 || m.eps != 0.5f; m.kind = k; m.size = 2; m.eps = 0.5f; m.color = Color::Black(); if (diff) { want = Expect(m); Regen(m); } break; }
    case 1: { int k = Pick("dim", 1); s.SetBrush(Make(m.kind, k ? 2 : 3, k ? 1 : 0.5f)); float z = k ? 2 : 3, e = k ? 1 : 0.5f; bool diff = m.size != z || m.eps != e; m.size = z; m.eps = e; m.color = Color::Black(); if (diff) { want = Expect(m); Regen(m); } break; }
    case 2: { int k = Pick("kind", 4); s.SetBrushFamily(Family(k)); bool same = Tips(k, m.kind); m.kind = k; if (!same) { want = Expect(m); Regen(m); } break; }
    case 3: s.SetBrushColor(Color::Red()); m.color = Color::Red(); break;
    case 4: { bool own = Pick("own", 1); if (own) s.SetInputs(s.GetInputs()); else { s.SetInputs(other); m.n = (int)other.Size(); m.x = 8; } want = Expect(m); Regen(m); break; }
    case 5: { bool own = Pick("own", 1); if (own) s.SetBrushAndInputs(s.GetBrush(), s.GetInputs()); else { s.SetBrushAndInputs(Make(3), other); m = Model(); m.kind = 3; m.n = (int)other.Size(); m.x = 8; } want = Expect(m); Regen(m); break; }
    case 6: builder_ref::log.bad = !builder_ref::log.bad; break; // from now on shapes cannot be packed (or can again)
    default: s.SetBrush(s.GetBrush()); break;
  }
  __vp_assert(Extends() - before == want, "the shape is regenerated exactly when needed"); Check(s, m);
}
static void Sequence(int steps) { builder_ref::log = {}; Model m; m.n = Pick("n", 2); Stroke s(Make(0), Inputs(m.n)); Regen(m); Check(s, m); int other = Pick("other", 1) * 2; StrokeInputBatch o = Inputs(other, 8); Stroke copy = s; Model was = m; for (int i = 0; i < steps; ++i) Step(s, m, o); Check(copy, was); __vp_reach("end"); }
VP_ENTRY(s07_setters) { Sequence(2); }
VP_ENTRY_T(s07_setters_deep) { Sequence(3); }
