// SRC: ink/geometry/partitioned_mesh.cc ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/internal/algorithms.cc ink/geometry/affine_transform.cc ink/geometry/quad.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// FLAGS: -DINK_VERIFY_MAX_VERTICES_PER_PARTITION=4
// OPT: budget=120
// BOUND: the limit of 65536 vertices per mesh is lowered to 4 (hook INK_VERIFY_MAX_VERTICES_PER_PARTITION); up to 3 triangles over 7 vertices with all index values, one position coordinate and one attribute value per partition on grids; outlines of up to 3 vertices
// ASSUME: flat_hash_map and flat_hash_set are replaced by lists; error texts are not modelled
#include <cmath>
#include <vector>

#include "ink/geometry/partitioned_mesh.h"
#include "vp.h"
using namespace ink; typedef MeshFormat::AttributeType T; typedef MeshFormat::AttributeId Id; typedef PartitionedMesh PM;
static int Pick(const char* n, int hi) { return __vp_concretize(__vp_range(n, 0, hi)); }
static const int kMax = 4;
static MeshFormat Fmt(bool packed) { return *MeshFormat::Create({{packed ? T::kFloat2PackedIn3UnsignedBytes_XY12 : T::kFloat2Unpacked, Id::kPosition}, {packed ? T::kFloat1PackedIn1UnsignedByte : T::kFloat1Unpacked, Id::kCustom0}}, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked); }
static const char* in[9] = {"a0", "a1", "a2", "b0", "b1", "b2", "c0", "c1", "c2"};
static bool Near(float a, float b, float e) { float d = a - b; return (d <= e) & (-d <= e); }
struct Src { MutableMesh m; std::vector<Point> p; std::vector<float> z; std::vector<std::array<uint32_t, 3>> tri; };
// Every triangle is in one mesh, in order, at the same places; all meshes share format and parameters.
static void Same(const Src& s, absl::Span<const Mesh> ms, float e) {
  size_t t = 0; std::vector<int> seen(s.p.size(), 0); std::vector<Point> at(s.p.size()); std::vector<float> az(s.p.size());
  for (size_t k = 0; k < ms.size(); ++k) {
    const Mesh& g = ms[k]; __vp_assert(g.TriangleCount() > 0 && g.VertexCount() <= (uint32_t)kMax, "within the limit and not empty"); __vp_assert(g.Format() == s.m.Format(), "format"); Envelope box; std::vector<bool> used(g.VertexCount());
    for (int a = 0; a < 2; ++a) { auto& u = g.VertexAttributeUnpackingParams(a); auto& v = ms[0].VertexAttributeUnpackingParams(a); __vp_assert(u.components.Size() == v.components.Size(), "parameters"); for (int c = 0; c < u.components.Size(); ++c) __vp_assert((u.components[c].offset == v.components[c].offset) & (u.components[c].scale == v.components[c].scale), "all meshes share their coding parameters"); }
    float zlo = INFINITY, zhi = -INFINITY;
    for (uint32_t i = 0; i < g.TriangleCount(); ++i, ++t) {
      __vp_assert(t < s.tri.size(), "no extra triangles"); if (t >= s.tri.size()) return; auto q = g.TriangleIndices(i);
      for (int c = 0; c < 3; ++c) {
        int v = s.tri[t][c]; __vp_assert(q[c] < g.VertexCount(), "index in range"); Point p = g.VertexPosition(q[c]); float z = g.FloatVertexAttribute(q[c], 1)[0]; used[q[c]] = true; box.Add(s.p[v]); zlo = s.z[v] < zlo ? s.z[v] : zlo; zhi = s.z[v] > zhi ? s.z[v] : zhi;
        __vp_assert(Near(p.x, s.p[v].x, e) & Near(p.y, s.p[v].y, e) & Near(z, s.z[v], e), "triangles in order, with their attributes"); if (seen[v]) __vp_assert((at[v].x == p.x) & (at[v].y == p.y) & (az[v] == z), "a vertex of several meshes is the same in all of them"); seen[v] = 1; at[v] = p; az[v] = z;
      }
    }
    for (bool b : used) __vp_assert(b, "no unused vertices"); auto b = g.Bounds().AsRect(), w = box.AsRect(); __vp_assert(b && (b->XMin() == w->XMin()) & (b->XMax() == w->XMax()) & (b->YMin() == w->YMin()) & (b->YMax() == w->YMax()), "each mesh has the bounds of its own vertices"); auto zb = g.AttributeBounds(1); __vp_assert(zb && (zb->minimum[0] == zlo) & (zb->maximum[0] == zhi), "attribute bounds of its own vertices");
  }
  __vp_assert(t == s.tri.size(), "no triangle is lost");
}
static Src Make(bool packed, int which) {
  static const Point base[7] = {{0, 0}, {8, 1}, {2, 9}, {10, 8}, {14, 3}, {4, 15}, {16, 12}}; Src s{MutableMesh(Fmt(packed)), {base, base + 7}, {}, {}}; for (int i = 0; i < 7; ++i) s.z.push_back(i); float f = vp::grid("f", -32, 31, 1); if (which >= 0) { if (which & 1) s.p[which >> 1].x += f; else s.z[which >> 1] += f; }
  for (int i = 0; i < 7; ++i) { s.m.AppendVertex(s.p[i]); s.m.SetFloatVertexAttribute(i, 1, {s.z[i]}); } return s;
}
static void Add(Src& s, std::array<uint32_t, 3> t) { s.tri.push_back(t); s.m.AppendTriangleIndices(t); }
static void Values(bool packed) { // strips and fans that need two or three meshes
  Src s = Make(packed, Pick("which", 13)); switch (Pick("tri", 3)) { case 0: Add(s, {0, 1, 2}); Add(s, {2, 1, 3}); Add(s, {3, 1, 4}); break; case 1: Add(s, {0, 1, 2}); Add(s, {3, 4, 6}); Add(s, {2, 3, 5}); break; case 2: Add(s, {0, 1, 2}); Add(s, {0, 2, 5}); Add(s, {0, 2, 6}); Add(s, {0, 1, 5}); break; case 3: Add(s, {6, 5, 3}); Add(s, {1, 4, 3}); break; }
  auto r = s.m.AsMeshes(); __vp_assert(r.ok(), "converted"); if (!r.ok()) return; __vp_assert(r->size() >= 2, "several meshes"); Same(s, *r, packed ? 0.5f : 0); __vp_reach("end");
}
VP_ENTRY(m10_values_unpacked) { Values(false); }
VP_ENTRY(m10_values_packed) { Values(true); }
static void Outlines(const Src& s, const std::vector<std::vector<uint32_t>>& ols, float e) {
  std::vector<absl::Span<const uint32_t>> sp(ols.begin(), ols.end()); auto p = PM::FromMutableMesh(s.m, sp); __vp_assert(p.ok() && p->RenderGroupCount() == 1, "shape"); if (!p.ok()) return; Same(s, p->Meshes(), e); std::vector<bool> used(s.p.size()); for (auto& t : s.tri) for (uint32_t v : t) used[v] = true; uint32_t k = 0;
  for (auto& o : ols) { std::vector<int> w; for (uint32_t v : o) if (used[v]) w.push_back(v); if (w.empty()) continue; __vp_assert(k < p->OutlineCount(0) && p->OutlineVertexCount(0, k) == w.size(), "outlines keep their vertices"); if (k >= p->OutlineCount(0) || p->OutlineVertexCount(0, k) != w.size()) return; auto ol = p->Outline(0, k); for (size_t j = 0; j < w.size(); ++j) { __vp_assert(ol[j].mesh_index < p->Meshes().size() && ol[j].vertex_index < p->Meshes()[ol[j].mesh_index].VertexCount(), "outline indices exist"); Point q = p->OutlinePosition(0, k, j); __vp_assert(Near(q.x, s.p[w[j]].x, e) & Near(q.y, s.p[w[j]].y, e), "outline positions"); __vp_assert(p->Meshes()[ol[j].mesh_index].FloatVertexAttribute(ol[j].vertex_index, 1)[0] == s.z[w[j]] || e > 0, "the same vertex"); } ++k; }
  __vp_assert(k == p->OutlineCount(0), "no other outlines"); __vp_reach("outlines");
}
static uint32_t Ix(const char* n, int hi) { return __vp_concretize(__vp_range(n, 0, hi)); }
static void Valid(const std::array<uint32_t, 3>& t) { __vp_assume((t[0] != t[1]) & (t[0] != t[2]) & (t[1] != t[2])); }
VP_ENTRY(m10_indices) { // the second and third triangle anywhere
  Src s = Make(false, -1); Add(s, {0, 1, 2}); std::array<uint32_t, 3> a{Ix(in[0], 6), Ix(in[1], 6), Ix(in[2], 6)}; Valid(a); Add(s, a); Add(s, {Pick("c", 1) ? 6u : 2u, 4, 5}); auto r = s.m.AsMeshes(); __vp_assert(r.ok(), "converted"); if (r.ok()) Same(s, *r, 0); __vp_reach("end");
}
VP_ENTRY(m10_outline) { // outlines through several meshes
  Src s = Make(Pick("packed", 1), 3); Add(s, {0, 1, 2}); Add(s, {2, 1, 3}); Add(s, {3, 1, 4}); Add(s, {0, 4, 6}); std::vector<std::vector<uint32_t>> o{{Ix("o0", 6), Ix("o1", 6), 3}, {5}, {4, 6}}; if (Pick("one", 1)) o.resize(1); Outlines(s, o, s.m.Format() == Fmt(true) ? 0.5f : 0);
}
VP_ENTRY(m10_query) { // hits are found in every mesh
  Src s = Make(false, -1); Add(s, {0, 1, 2}); Add(s, {2, 1, 3}); Add(s, {3, 1, 4}); Add(s, {6, 5, 3}); auto p = PM::FromMutableMesh(s.m); __vp_assert(p.ok(), "shape"); if (!p.ok()) return; Point q{vp::grid("x", 0, 31, 1), (float)Pick("y", 15)}; std::vector<int> hit(4); p->VisitIntersectedTriangles(q, [&](PM::TriangleIndexPair i) { int t = i.triangle_index; for (int k = 0; k < i.mesh_index; ++k) t += p->Meshes()[k].TriangleCount(); __vp_assert(t < 4, "triangle"); if (t < 4) ++hit[t]; return PM::FlowControl::kContinue; });
  for (int t = 0; t < 4; ++t) { Point a = s.p[s.tri[t][0]], b = s.p[s.tri[t][1]], c = s.p[s.tri[t][2]]; auto cr = [&](Point u, Point v) { return (v.x - u.x) * (q.y - u.y) - (v.y - u.y) * (q.x - u.x); }; float d0 = cr(a, b), d1 = cr(b, c), d2 = cr(c, a); bool in = ((d0 >= 0) & (d1 >= 0) & (d2 >= 0)) | ((d0 <= 0) & (d1 <= 0) & (d2 <= 0)); __vp_assert((hit[t] == 1) == in && hit[t] <= 1, "exactly the triangles that hold the point"); } __vp_reach("end");
}
VP_ENTRY(m10_invalid) { // values that are not finite anywhere, omitted attributes
  Src s = Make(false, -1); Add(s, {0, 1, 2}); Add(s, {3, 4, 6}); int v = Pick("v", 6), w = Pick("w", 2); float f = __vp_f32("bad"); bool om = Pick("om", 1); if (w == 2) s.m.SetFloatVertexAttribute(v, 1, {f}); else s.m.SetVertexPosition(v, w ? Point{f, 0} : Point{0, f}); std::vector<Id> omit; if (om) omit.push_back(Id::kCustom0); auto r = s.m.AsMeshes({}, omit); bool fine = std::isfinite(f) | (om & (w == 2)); __vp_assert(r.ok() == fine, "converted exactly when all values are finite"); if (r.ok()) { __vp_assert(r->size() == 2 && (*r)[0].Format().Attributes().size() == (om ? 1u : 2u) && (*r)[1].Format() == (*r)[0].Format(), "format"); } __vp_reach("end");
}
static float Area2(Point a, Point b, Point c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
VP_ENTRY(m10_flip) { // slivers that rounding would flip, with vertices in two meshes
  Src s = Make(true, -1); float t = vp::grid("t", 0, 255, 6); static const float fr[3] = {0, 0.375f, 0.625f}; s.p = {{1 + fr[Pick("a", 2)], 1.375f}, {6, 2 + fr[Pick("b", 2)]}, {3 + fr[Pick("c", 2)], 2}, {4, 1.25f}, {11, 9}, {13, 9}, {12, 12}}; s.p[Pick("w", 1) ? 3 : 2].y = t; for (int i = 0; i < 7; ++i) s.m.SetVertexPosition(i, s.p[i]); Add(s, {4, 5, 6}); if (Pick("order", 1)) { Add(s, {0, 1, 2}); Add(s, {1, 0, 3}); } else { Add(s, {1, 0, 3}); Add(s, {0, 1, 2}); }
  std::vector<std::optional<MeshAttributeCodingParams>> cu(2); cu[0] = MeshAttributeCodingParams{.components = SmallArray<MeshAttributeCodingParams::ComponentCodingParams, 4>(2, {.offset = 0, .scale = 1})}; auto r = s.m.AsMeshes(cu); __vp_assert(r.ok() && r->size() == 2, "two meshes"); if (!r.ok()) return; Same(s, *r, 1); bool was = false, is = false, nearest = true; size_t k = 0; for (const Mesh& g : *r) for (uint32_t i = 0; i < g.TriangleCount(); ++i, ++k) { Triangle x = g.GetTriangle(i); auto& q = s.tri[k]; was = was | (Area2(s.p[q[0]], s.p[q[1]], s.p[q[2]]) < 0); is = is | (Area2(x.p0, x.p1, x.p2) < 0); Point o[3] = {s.p[q[0]], s.p[q[1]], s.p[q[2]]}, w[3] = {x.p0, x.p1, x.p2}; for (int c = 0; c < 3; ++c) nearest = nearest & Near(o[c].x, w[c].x, 0.5f) & Near(o[c].y, w[c].y, 0.5f); }
  __vp_assert(nearest | !is, "vertices move further than rounding only where that leaves no flipped triangle"); __vp_assert(!was | nearest, "meshes with flipped triangles are just rounded"); if (!nearest) __vp_reach("corrected"); __vp_reach("end");
}
