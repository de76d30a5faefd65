// SRC: ink/geometry/partitioned_mesh.cc ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/internal/algorithms.cc ink/geometry/affine_transform.cc ink/geometry/quad.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// OPT: budget=120
// BOUND: up to 3 render groups of up to 2 meshes with up to 2 outlines of up to 2 vertices, all mesh and vertex indices (16-bit, or 32-bit into a mutable mesh of 5 vertices); mesh counts above the maximum by size only
// ASSUME: error texts are not modelled
#include <vector>

#include "ink/geometry/partitioned_mesh.h"
#include "vp.h"
using namespace ink; typedef MeshFormat::AttributeType T; typedef MeshFormat::AttributeId Id; typedef PartitionedMesh::VertexIndexPair VP; typedef PartitionedMesh PM;
static int Pick(const char* n, int hi) { return __vp_concretize(__vp_range(n, 0, hi)); }
static Mesh MakeMesh(float x, int nv, int nt, const MeshFormat& f = MeshFormat()) { std::vector<float> xs, ys, zs; for (int i = 0; i < nv; ++i) { xs.push_back(x + i); ys.push_back(x - (i & 1)); zs.push_back(0); } std::vector<uint32_t> ix; for (int i = 0; i < nt; ++i) for (int k = 0; k < 3; ++k) ix.push_back((i + k) % nv); std::vector<absl::Span<const float>> sp{xs, ys}; if (f.Attributes().size() == 2) sp.push_back(zs); auto m = Mesh::Create(f, sp, ix); __vp_assert(m.ok(), "mesh"); return *m; }
static const char* nm[12] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "ma", "mb"}; static const char* nv[12] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "va", "vb"};
struct Group { std::vector<Mesh> meshes; std::vector<std::vector<VP>> outlines; std::vector<absl::Span<const VP>> spans; };
static void Structure(const PM& p, const std::vector<Group>& gs) {
  __vp_assert(p.RenderGroupCount() == gs.size(), "group count"); size_t all = 0; Envelope box; for (const Group& g : gs) for (const Mesh& m : g.meshes) { box.Add(m.Bounds()); __vp_assert(all < p.Meshes().size() && p.Meshes()[all].Bounds().AsRect()->XMin() == m.Bounds().AsRect()->XMin(), "meshes in order"); ++all; } __vp_assert(p.Meshes().size() == all, "mesh count"); auto b = p.Bounds().AsRect(), w = box.AsRect(); __vp_assert(b.has_value() == w.has_value() && (!b || (b->XMin() == w->XMin() && b->XMax() == w->XMax() && b->YMin() == w->YMin() && b->YMax() == w->YMax())), "bounds");
  for (size_t i = 0; i < gs.size() && i < p.RenderGroupCount(); ++i) {
    const Group& g = gs[i]; auto ms = p.RenderGroupMeshes(i); __vp_assert(ms.size() == g.meshes.size(), "meshes of a group"); if (ms.size() != g.meshes.size()) return; for (size_t k = 0; k < ms.size(); ++k) __vp_assert(ms[k].VertexCount() == g.meshes[k].VertexCount() && ms[k].VertexPosition(0) == g.meshes[k].VertexPosition(0), "meshes of a group in order"); __vp_assert(p.RenderGroupFormat(i) == (g.meshes.empty() ? MeshFormat() : g.meshes[0].Format()), "format of a group");
    __vp_assert(p.OutlineCount(i) == g.outlines.size(), "outlines of a group"); if (p.OutlineCount(i) != g.outlines.size()) return; for (size_t o = 0; o < g.outlines.size(); ++o) { auto ol = p.Outline(i, o); const auto& w = g.outlines[o]; __vp_assert(ol.size() == w.size() && p.OutlineVertexCount(i, o) == w.size(), "outline size"); for (size_t k = 0; k < w.size() && k < ol.size(); ++k) { __vp_assert((ol[k].mesh_index == w[k].mesh_index) & (ol[k].vertex_index == w[k].vertex_index), "outline indices"); __vp_assert(p.OutlinePosition(i, o, k) == g.meshes[__vp_concretize(w[k].mesh_index)].VertexPosition(w[k].vertex_index), "outline position"); } }
  }
}
// one group whose outlines have arbitrary indices, next to fixed groups
static void Groups(int where) {
  std::vector<Group> gs(where == 3 ? 1 : 3); int v = where == 3 ? 0 : where; for (size_t i = 0; i < gs.size(); ++i) { int n = (int)i == v ? 1 + Pick("n", 1) : i == 1 ? Pick("e", 1) : 1; for (int k = 0; k < n; ++k) gs[i].meshes.push_back(MakeMesh(8 * i + 4 * k, 3 + k, 1 + k)); if ((int)i != v && n) gs[i].outlines.push_back({{0, 2}, {0, 0}, {0, 1}}); }
  int no = Pick("no", 2), u = 0; bool want = true; for (int o = 0; o < no; ++o) { std::vector<VP> ol; int len = o ? 2 : Pick("len", 2); want = want && len > 0; for (int k = 0; k < len; ++k, ++u) { VP p{__vp_u16(nm[u]), __vp_u16(nv[u])}; bool in = false; for (size_t m = 0; m < gs[v].meshes.size(); ++m) in = in | ((p.mesh_index == m) & (p.vertex_index < gs[v].meshes[m].VertexCount())); want = want & in; ol.push_back(p); } gs[v].outlines.push_back(ol); }
  std::vector<PM::MeshGroup> a; for (Group& g : gs) { for (auto& o : g.outlines) g.spans.push_back(o); a.push_back({g.meshes, g.spans}); } auto p = PM::FromMeshGroups(a); __vp_assert(p.ok() == want, "accepted exactly when every outline is non-empty and in range"); if (p.ok() && want) { PM q = *p; Structure(q, gs); __vp_reach("accepted"); } else __vp_reach("refused");
}
VP_ENTRY(m08_first_group) { Groups(0); }
VP_ENTRY(m08_middle_group) { Groups(1); }
VP_ENTRY(m08_last_group) { Groups(2); }
VP_ENTRY(m08_single) { Groups(3); }
VP_ENTRY(m08_from_meshes) {
  std::vector<Group> gs(1); Group& g = gs[0]; int n = Pick("n", 2); for (int k = 0; k < n; ++k) g.meshes.push_back(MakeMesh(4 * k, 3, 1)); VP x{__vp_u16("m"), __vp_u16("v")}; g.outlines.push_back({x}); g.spans.push_back(g.outlines[0]); auto p = PM::FromMeshes(g.meshes, g.spans); __vp_assert(p.ok() == ((x.mesh_index < n) & (x.vertex_index < 3)), "accepted exactly when in range"); if (p.ok()) Structure(*p, gs); __vp_reach("end");
}
static MeshFormat Wide() { return *MeshFormat::Create({{T::kFloat2Unpacked, Id::kPosition}, {T::kFloat1Unpacked, Id::kCustom0}}, MeshFormat::IndexFormat::k16BitUnpacked16BitPacked); }
VP_ENTRY(m08_formats) { // formats must agree within a group only; meshes must have triangles
  int f[4], e = Pick("e", 4); std::vector<Group> gs(2); bool want = true; for (int i = 0; i < 4; ++i) { f[i] = Pick(nm[i], 1); gs[i / 2].meshes.push_back(MakeMesh(4 * i, 3, i == e ? 0 : 1, f[i] ? Wide() : MeshFormat())); } want = f[0] == f[1] && f[2] == f[3] && e == 4; std::vector<PM::MeshGroup> a; for (Group& g : gs) a.push_back({g.meshes, {}}); auto p = PM::FromMeshGroups(a); __vp_assert(p.ok() == want, "accepted exactly when formats agree and no mesh is empty"); if (p.ok() && want) Structure(*p, gs); __vp_reach("end");
}
VP_ENTRY(m08_close_formats) { // formats that differ in one respect only: type, id or order of attributes, index format
  typedef std::pair<T, Id> P; auto mk = [](P a, P b, MeshFormat::IndexFormat x) { return *MeshFormat::Create({a, b}, x); }; P pos{T::kFloat2Unpacked, Id::kPosition}; auto i16 = MeshFormat::IndexFormat::k16BitUnpacked16BitPacked, i32 = MeshFormat::IndexFormat::k32BitUnpacked16BitPacked; MeshFormat fs[] = {mk(pos, {T::kFloat1Unpacked, Id::kCustom0}, i16), mk(pos, {T::kFloat1Unpacked, Id::kCustom0}, i32), mk(pos, {T::kFloat1Unpacked, Id::kCustom1}, i16), mk(pos, {T::kFloat1PackedIn1UnsignedByte, Id::kCustom0}, i16)};
  int f[2]; std::vector<Group> gs(1); for (int i = 0; i < 2; ++i) { f[i] = Pick(nm[i], 3); gs[0].meshes.push_back(MakeMesh(4 * i, 3, 1, fs[f[i]])); } std::vector<PM::MeshGroup> a; for (Group& g : gs) a.push_back({g.meshes, {}}); auto p = PM::FromMeshGroups(a); __vp_assert(p.ok() == (f[0] == f[1]), "a group's meshes have one format"); if (p.ok() && f[0] == f[1]) Structure(*p, gs); __vp_reach("end");
}
VP_ENTRY(m08_too_many) { Mesh m; uint32_t a = __vp_u32("a"), b = __vp_u32("b"); __vp_assume(((uint64_t)a + b > 65536) & (a < (1u << 30)) & (b < (1u << 30))); std::vector<PM::MeshGroup> g{{absl::Span<const Mesh>(&m, a), {}}, {absl::Span<const Mesh>(&m, b), {}}}; __vp_assert(!PM::FromMeshGroups(g).ok(), "more than 65536 meshes are refused"); __vp_reach("end"); }
// ---- empty shapes: nothing to visit, nothing covered
static void NoVisit(const PM& p) {
  PM q = p; float x = vp::grid("x", -4, 3); auto no = [](PM::TriangleIndexPair) { __vp_assert(false, "nothing to visit"); return PM::FlowControl::kContinue; }; Point a{x, 0}, b{1, x}, c{2, 2}; Mesh one = MakeMesh(0, 3, 1); auto other = PM::FromMeshes({&one, 1}); __vp_assert(other.ok(), "shape"); Rect r = Rect::FromTwoPoints(a, c); Quad d = Quad::FromRect(r); Triangle t{a, b, c};
  q.VisitIntersectedTriangles(a, no); q.VisitIntersectedTriangles(Segment{a, b}, no); q.VisitIntersectedTriangles(t, no); q.VisitIntersectedTriangles(r, no); q.VisitIntersectedTriangles(d, no); q.VisitIntersectedTriangles(*other, no); q.VisitIntersectedTriangles(q, no); other->VisitIntersectedTriangles(q, no); __vp_assert(other->Coverage(q) == 0 && !other->CoverageIsGreaterThan(q, 0), "an empty shape covers nothing");
  __vp_assert(q.Coverage(t) == 0 && q.Coverage(r) == 0 && q.Coverage(d) == 0 && q.Coverage(*other) == 0 && q.Coverage(q) == 0, "coverage of an empty shape is zero"); float th = __vp_f32("th"); __vp_assert(!q.CoverageIsGreaterThan(t, th) && !q.CoverageIsGreaterThan(r, th) && !q.CoverageIsGreaterThan(d, th) && !q.CoverageIsGreaterThan(*other, th) && !q.CoverageIsGreaterThan(q, th), "coverage of an empty shape exceeds nothing");
  q.InitializeSpatialIndex(); __vp_assert(!q.IsSpatialIndexInitialized() && q.Bounds().IsEmpty() && q.Meshes().empty(), "nothing to index"); __vp_reach("end");
}
VP_ENTRY(m08_empty_default) { PM p; __vp_assert(p.RenderGroupCount() == 0, "no groups"); NoVisit(p); }
VP_ENTRY(m08_empty_groups) { int n = Pick("n", 3); PM p = PM::WithEmptyGroups(n); Structure(p, std::vector<Group>(n)); NoVisit(p); }
// ---- from mutable meshes
VP_ENTRY(m08_mutable) {
  int wide = Pick("wide", 1), ng = 1 + Pick("ng", 1); MutableMesh m(*MeshFormat::Create({{T::kFloat2Unpacked, Id::kPosition}}, wide ? MeshFormat::IndexFormat::k32BitUnpacked16BitPacked : MeshFormat::IndexFormat::k16BitUnpacked16BitPacked)); for (int i = 0; i < 5; ++i) m.AppendVertex({(float)i, (float)(i & 1)}); m.AppendTriangleIndices({4, 2, 1}); m.AppendTriangleIndices({1, 2, 0});  // vertex 3 is unused
  int no = Pick("no", 2), u = 0; bool want = true; std::vector<std::vector<uint32_t>> ols; std::vector<absl::Span<const uint32_t>> sp; for (int o = 0; o < no; ++o) { int len = o ? 1 : Pick("len", 3); std::vector<uint32_t> ol; for (int k = 0; k < len; ++k) { ol.push_back(__vp_u32(nv[u++])); want = want & (ol[k] < 5); } ols.push_back(ol); } for (auto& o : ols) sp.push_back(o);
  MutableMesh other = m.Clone(); std::vector<PM::MutableMeshGroup> a{{&m, sp, {}, {}}}; if (ng == 2) a.insert(a.begin(), {&other, {}, {}, {}}); auto p = PM::FromMutableMeshGroups(a); __vp_assert(p.ok() == want, "accepted exactly when every outline index is in range"); if (!p.ok() || !want) { __vp_reach("refused"); return; } __vp_assert(p->RenderGroupCount() == ng && p->OutlineCount(0) * (ng - 1) == 0, "groups"); int g = ng - 1; uint32_t k = 0;
  for (auto& o : ols) { std::vector<int> used; for (uint32_t i : o) { int x = __vp_concretize(i); if (x != 3) used.push_back(x); } if (used.empty()) continue; __vp_assert(k < p->OutlineCount(g), "outlines are kept"); if (k >= p->OutlineCount(g)) return; __vp_assert(p->OutlineVertexCount(g, k) == used.size(), "outline vertices that belong to triangles are kept"); for (size_t j = 0; j < used.size() && j < p->OutlineVertexCount(g, k); ++j) __vp_assert(p->OutlinePosition(g, k, j) == m.VertexPosition(used[j]), "outline positions are those of the mutable mesh"); ++k; } __vp_assert(k == p->OutlineCount(g), "no other outlines"); __vp_assert(p->RenderGroupMeshes(g).size() == 1 && p->RenderGroupMeshes(g)[0].TriangleCount() == 2 && p->RenderGroupMeshes(g)[0].VertexCount() == 4, "one mesh without unused vertices"); for (int t = 0; t < 2; ++t) { Triangle x = m.GetTriangle(t), y = p->RenderGroupMeshes(g)[0].GetTriangle(t); __vp_assert(x.p0 == y.p0 && x.p1 == y.p1 && x.p2 == y.p2, "triangles in order"); } __vp_reach("accepted");
}
VP_ENTRY(m08_mutable_empty) { MutableMesh m; int n = Pick("n", 2); for (int i = 0; i < n; ++i) m.AppendVertex({1, 2}); uint32_t i = __vp_u32("i"); std::vector<uint32_t> o{i}; std::vector<absl::Span<const uint32_t>> sp{o}; auto p = PM::FromMutableMesh(m, sp); __vp_assert(p.ok() == (i < (uint32_t)n), "an outline needs its vertices"); auto q = PM::FromMutableMesh(m); __vp_assert(q.ok() && q->RenderGroupCount() == 1 && q->Meshes().empty() && q->OutlineCount(0) == 0, "a mesh without triangles gives an empty group"); __vp_reach("end"); }
