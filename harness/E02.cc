// SRC: ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc ink/strokes/internal/brush_tip_extruder/extruded_vertex.cc ink/strokes/internal/legacy_vertex.cc ink/strokes/internal/stroke_vertex.cc ink/color/color.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/internal/algorithms.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// OPT: budget=120
// BOUND: histories of 2 operations (thorough: 3) out of append/set vertex, set derivative, set label, append/set/insert triangle, resize, reset of the tracking on a view of 2 vertices and 2 triangles (both storage kinds), all floats but NaN and all index values
#include <vector>

#include "ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.h"
#include "vp.h"
using namespace ink; using namespace ink::brush_tip_extruder_internal; using strokes_internal::StrokeVertex; using strokes_internal::LegacyVertex;
static float Any(const char* n) { float f = __vp_f32(n); __vp_assume(f == f); return f; }
struct MV { Point p{0, 0}; Vec sd{0, 0}, fd{0, 0}; float sl = 0, fl = 0; float op = 0; float tx = 0; };
static const char* nf[4][4] = {{"f0", "f1", "f2", "f3"}, {"g0", "g1", "g2", "g3"}, {"h0", "h1", "h2", "h3"}, {"k0", "k1", "k2", "k3"}}; static const char* ni[4][3] = {{"i0", "i1", "i2"}, {"j0", "j1", "j2"}, {"l0", "l1", "l2"}, {"m0", "m1", "m2"}}; static const char* no[4] = {"o0", "o1", "o2", "o3"}; static const char* na[4] = {"a0", "a1", "a2", "a3"};
static bool Eq(Vec a, Vec b) { return (a.x == b.x) & (a.y == b.y); }
static void Same(const MutableMeshView& v, bool legacy, const std::vector<MV>& w, const std::vector<std::array<uint32_t, 3>>& t, uint32_t fv, uint32_t ft) {
  __vp_assert(v.HasMeshData() && v.VertexCount() == w.size() && v.TriangleCount() == t.size(), "counts"); __vp_assert((v.FirstMutatedVertex() == fv) & (v.FirstMutatedTriangle() == ft), "first mutated vertex and triangle");
  for (uint32_t i = 0; i < w.size(); ++i) {
    Point p = v.GetPosition(i); ExtrudedVertex e = v.GetVertex(i); __vp_assert((p.x == w[i].p.x) & (p.y == w[i].p.y) & (e.position.x == p.x) & (e.position.y == p.y), "positions"); MV m = w[i]; if (legacy) { __vp_assert(e.texture_coords.x == m.tx, "legacy texture coordinates"); m.sd = m.fd = {0, 0}; m.sl = m.fl = 0; }
    else __vp_assert(e.new_non_position_attributes.opacity_shift == m.op, "opacity shift");
    __vp_assert(Eq(v.GetSideDerivative(i), m.sd) & Eq(v.GetForwardDerivative(i), m.fd), "derivatives"); __vp_assert((v.GetSideLabel(i).encoded_value == m.sl) & (v.GetForwardLabel(i).encoded_value == m.fl), "labels");
  }
  for (uint32_t i = 0; i < t.size(); ++i) { auto x = v.GetTriangleIndices(i); __vp_assert((x[0] == t[i][0]) & (x[1] == t[i][1]) & (x[2] == t[i][2]), "triangle indices"); __vp_assert((v.GetVertexIndex(i, 0) == x[0]) & (v.GetVertexIndex(i, 1) == x[1]) & (v.GetVertexIndex(i, 2) == x[2]), "single vertex index"); }
}
static uint32_t Mn(uint32_t a, uint32_t b) { return a < b ? a : b; }
static void History(int steps, bool legacy) {
  MutableMesh mesh(StrokeVertex::FullMeshFormat()); std::vector<LegacyVertex> lv; std::vector<uint32_t> li; MutableMeshView v = legacy ? MutableMeshView(lv, li) : MutableMeshView(mesh);
  std::vector<MV> w; std::vector<std::array<uint32_t, 3>> t; for (int i = 0; i < 2; ++i) { MV m; m.p = {(float)i, 3}; w.push_back(m); t.push_back({(uint32_t)i, 1, 0}); v.AppendVertex({.position = m.p}); v.AppendTriangleIndices(t.back()); } uint32_t fv = 0, ft = 0; Same(v, legacy, w, t, 0, 0); v.ResetMutationTracking(); fv = ft = 2;
  for (int s = 0; s < steps; ++s) {
    int op = __vp_concretize(__vp_range(no[s], 0, 9)); std::array<uint32_t, 3> x; auto Tri = [&] { for (int i = 0; i < 3; ++i) x[i] = __vp_u32(ni[s][i]); }; auto Vtx = [&](size_t n) { return (uint32_t)__vp_concretize(__vp_range(na[s], 0, n - 1)); };
    switch (op) {
      case 0: case 1: { MV m; m.p = {Any(nf[s][0]), Any(nf[s][1])}; m.op = Any(nf[s][2]); float op = m.op; m.op = op < -1 ? -1 : op > 1 ? 1 : op; m.tx = Any(nf[s][3]); ExtrudedVertex e{.position = m.p, .texture_coords = {m.tx, 0}}; e.new_non_position_attributes.opacity_shift = op; if (op == 0) { v.AppendVertex(e); w.push_back(m); } else { if (w.empty()) break; uint32_t k = Vtx(w.size()); v.SetVertex(k, e); w[k] = m; fv = Mn(fv, k); } break; }
      case 2: { if (w.empty()) break; uint32_t k = Vtx(w.size()); Vec d{Any(nf[s][0]), Any(nf[s][1])}; v.SetSideDerivative(k, d); w[k].sd = d; if (!legacy) fv = Mn(fv, k); break; }
      case 3: { if (w.empty()) break; uint32_t k = Vtx(w.size()); Vec d{Any(nf[s][0]), Any(nf[s][1])}; v.SetForwardDerivative(k, d); w[k].fd = d; if (!legacy) fv = Mn(fv, k); break; }
      case 4: { if (w.empty()) break; uint32_t k = Vtx(w.size()); w[k].sl = Any(nf[s][0]); v.SetSideLabel(k, {w[k].sl}); if (!legacy) fv = Mn(fv, k); break; }
      case 5: { if (w.empty()) break; uint32_t k = Vtx(w.size()); w[k].fl = Any(nf[s][0]); v.SetForwardLabel(k, {w[k].fl}); if (!legacy) fv = Mn(fv, k); break; }
      case 6: Tri(); v.AppendTriangleIndices(x); t.push_back(x); break;
      case 7: { if (t.empty()) break; Tri(); uint32_t k = Vtx(t.size()); v.SetTriangleIndices(k, x); t[k] = x; ft = Mn(ft, k); break; }
      case 8: { Tri(); uint32_t k = Vtx(t.size() + 1); v.InsertTriangleIndices(k, x); t.insert(t.begin() + k, x); ft = Mn(ft, k); break; }
      default: { int k = __vp_concretize(__vp_range(na[s], 0, 4)); if (k == 4) { v.ResetMutationTracking(); fv = w.size(); ft = t.size(); break; } uint32_t nv = k & 1 ? 1 : 3, nt = k & 2 ? 1 : 3; v.Resize(nv, nt); w.resize(nv); t.resize(nt, {0, 0, 0}); fv = Mn(fv, nv); ft = Mn(ft, nt); break; }
    }
  }
  Same(v, legacy, w, t, fv, ft); __vp_reach("end");
}
VP_ENTRY(e02_history_mesh) { History(2, false); }
VP_ENTRY(e02_history_legacy) { History(2, true); }
VP_ENTRY_T(e02_history3_mesh) { History(3, false); }
VP_ENTRY_T(e02_history3_legacy) { History(3, true); }
VP_ENTRY(e02_triangle) { // triangles come from the indexed positions and invalid accesses abort
  bool legacy = __vp_concretize(__vp_range("legacy", 0, 1)); MutableMesh mesh(StrokeVertex::FullMeshFormat()); std::vector<LegacyVertex> lv; std::vector<uint32_t> li; MutableMeshView v = legacy ? MutableMeshView(lv, li) : MutableMeshView(mesh); Point p[3]; for (int i = 0; i < 3; ++i) { p[i] = {Any(nf[i][0]), Any(nf[i][1])}; v.AppendVertex({.position = p[i]}); } std::array<uint32_t, 3> x; for (int i = 0; i < 3; ++i) x[i] = __vp_concretize(__vp_range(ni[0][i], 0, 2)); v.AppendTriangleIndices(x); Triangle t = v.GetTriangle(0); __vp_assert((t.p0.x == p[x[0]].x) & (t.p0.y == p[x[0]].y) & (t.p1.x == p[x[1]].x) & (t.p1.y == p[x[1]].y) & (t.p2.x == p[x[2]].x) & (t.p2.y == p[x[2]].y), "triangle corners"); __vp_reach("end");
}
VP_ENTRY(e02_invalid) {
  bool legacy = __vp_concretize(__vp_range("legacy", 0, 1)); MutableMesh mesh(StrokeVertex::FullMeshFormat()); std::vector<LegacyVertex> lv; std::vector<uint32_t> li; MutableMeshView v = legacy ? MutableMeshView(lv, li) : MutableMeshView(mesh); v.AppendVertex({.position = {1, 2}}); v.AppendTriangleIndices({0, 0, 0}); int w = __vp_concretize(__vp_range("w", 0, 9)); uint32_t k = __vp_u32("k"); __vp_assume(k >= 1); if (w == 8) __vp_assume(k >= 2); __vp_expect_check_fail();
  switch (w) { case 0: (void)v.GetPosition(k); break; case 1: (void)v.GetVertex(k); break; case 2: (void)v.GetTriangle(k); break; case 3: (void)v.GetVertexIndex(k, 0); break; case 4: v.SetVertex(k, {}); break; case 5: v.SetSideLabel(k, {1}); break; case 6: v.SetForwardDerivative(k, {1, 1}); break; case 7: v.SetTriangleIndices(k, {0, 0, 0}); break; case 8: v.InsertTriangleIndices(k, {0, 0, 0}); break; default: (void)v.GetVertexIndex(0, k + 2 < k ? 3 : k + 2); }
  __vp_assert(false, "an out of range index must abort");
}
