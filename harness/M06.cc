// SRC: ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// OPT: budget=120
// BOUND: histories of 3 operations (thorough: 4) out of append vertex, append, set, insert triangle, set attribute, set position, resize, clear, clone on meshes of up to 3 vertices and 3 triangles, all attribute bit patterns and index values, both index widths
// BOUND: validation of meshes with 3 vertices and 2 triangles, all index values
// ASSUME: error texts are not modelled
#include <cstring>
#include <vector>

#include "ink/geometry/mutable_mesh.h"
#include "vp.h"
using namespace ink; typedef MeshFormat::AttributeType T; typedef MeshFormat::AttributeId Id;
static const int kC[3] = {1, 2, 3};
struct Model { std::vector<std::array<float, 6>> v; std::vector<std::array<uint32_t, 3>> t; };
static float Any(const char* n) { float f = __vp_f32(n); __vp_assume(f == f); return f; }
static void Same(const MutableMesh& m, const Model& w) {
  __vp_assert(m.VertexCount() == w.v.size() && m.TriangleCount() == w.t.size(), "counts"); __vp_assert(m.RawVertexData().size() == w.v.size() * 24 && m.RawIndexData().size() == w.t.size() * 3 * m.IndexStride(), "raw sizes");
  for (size_t i = 0; i < w.v.size(); i++) { bool ok = true; for (int a = 0, c = 0; a < 3; c += kC[a++]) { auto x = m.FloatVertexAttribute(i, a); __vp_assert(x.Size() == kC[a], "components"); for (int k = 0; k < kC[a]; k++) ok = ok & (x[k] == w.v[i][c + k]); } Point p = m.VertexPosition(i); __vp_assert(ok & (p.x == w.v[i][1]) & (p.y == w.v[i][2]), "vertex attributes read back"); }
  for (size_t i = 0; i < w.t.size(); i++) { auto x = m.TriangleIndices(i); __vp_assert((x[0] == w.t[i][0]) & (x[1] == w.t[i][1]) & (x[2] == w.t[i][2]), "triangle indices read back"); }
}
static const char* nf[4][3] = {{"f0", "f1", "f2"}, {"g0", "g1", "g2"}, {"h0", "h1", "h2"}, {"k0", "k1", "k2"}}; static const char* ni[4][3] = {{"i0", "i1", "i2"}, {"j0", "j1", "j2"}, {"l0", "l1", "l2"}, {"m0", "m1", "m2"}}; static const char* no[4] = {"o0", "o1", "o2", "o3"}; static const char* na[4] = {"a0", "a1", "a2", "a3"};
static void History(int steps, bool wide) {
  MeshFormat f = *MeshFormat::Create({{T::kFloat1PackedIn1UnsignedByte, Id::kCustom0}, {T::kFloat2PackedIn1Float, Id::kPosition}, {T::kFloat3Unpacked, Id::kColorShiftHsl}}, wide ? MeshFormat::IndexFormat::k32BitUnpacked16BitPacked : MeshFormat::IndexFormat::k16BitUnpacked16BitPacked);
  MutableMesh m(f); Model w; m.AppendVertex({1, 2}); w.v.push_back({0, 1, 2, 0, 0, 0}); m.AppendTriangleIndices({7, 8, 9}); w.t.push_back({7, 8, 9});
  for (int s = 0; s < steps; s++) {
    int op = __vp_concretize(__vp_range(no[s], 0, 8)); std::array<uint32_t, 3> tri; auto Tri = [&] { for (int i = 0; i < 3; i++) tri[i] = wide ? __vp_u32(ni[s][i]) : __vp_u16(ni[s][i]); };
    switch (op) {
      case 0: { float x = Any(nf[s][0]), y = Any(nf[s][1]); m.AppendVertex({x, y}); w.v.push_back({0, x, y, 0, 0, 0}); break; }
      case 1: Tri(); m.AppendTriangleIndices(tri); w.t.push_back(tri); break;
      case 2: { if (w.t.empty()) break; Tri(); int k = __vp_concretize(__vp_range(na[s], 0, w.t.size() - 1)); m.SetTriangleIndices(k, tri); w.t[k] = tri; break; }
      case 3: { Tri(); int k = __vp_concretize(__vp_range(na[s], 0, w.t.size())); m.InsertTriangleIndices(k, tri); w.t.insert(w.t.begin() + k, tri); break; }
      case 4: { if (w.v.empty()) break; int k = w.v.size() - 1, a = __vp_concretize(__vp_range(na[s], 0, 2)); SmallArray<float, 4> val(kC[a]); int c = a == 0 ? 0 : a == 1 ? 1 : 3; for (int i = 0; i < kC[a]; i++) { val[i] = Any(nf[s][i]); w.v[k][c + i] = val[i]; } m.SetFloatVertexAttribute(k, a, val); break; }
      case 5: { if (w.v.empty()) break; float x = Any(nf[s][0]), y = Any(nf[s][1]); m.SetVertexPosition(0, {x, y}); w.v[0][1] = x; w.v[0][2] = y; break; }
      case 6: { int k = __vp_concretize(__vp_range(na[s], 0, 3)); int nv = k & 1 ? 0 : 3, nt = k & 2 ? 0 : 2; m.Resize(nv, nt); w.v.resize(nv, std::array<float, 6>{}); w.t.resize(nt, std::array<uint32_t, 3>{}); break; }
      case 7: m.Clear(); w = Model(); break;
      default: { MutableMesh c = m.Clone(); Same(c, w); c.AppendVertex({5, 5}); c.Resize(1, 1); c.SetVertexPosition(0, {9, 9}); c.SetTriangleIndices(0, {1, 2, 3}); break; }
    }
  }
  Same(m, w); __vp_reach("end");
}
VP_ENTRY(m06_history_16) { History(3, false); }
VP_ENTRY(m06_history_32) { History(3, true); }
VP_ENTRY_T(m06_history4_16) { History(4, false); }
VP_ENTRY_T(m06_history4_32) { History(4, true); }
VP_ENTRY(m06_validate) {
  bool wide = __vp_concretize(__vp_range("w", 0, 1)); MeshFormat f = *MeshFormat::Create({{T::kFloat2Unpacked, Id::kPosition}}, wide ? MeshFormat::IndexFormat::k32BitUnpacked16BitPacked : MeshFormat::IndexFormat::k16BitUnpacked16BitPacked); MutableMesh m(f); for (int i = 0; i < 4; i++) m.AppendVertex({(float)i, (float)(i & 1)});
  bool want = true; for (int t = 0; t < 2; t++) { std::array<uint32_t, 3> x; for (int i = 0; i < 3; i++) { x[i] = wide ? __vp_u32(ni[t][i]) : __vp_u16(ni[t][i]); want = want & (x[i] < 4); } want = want & (x[0] != x[1]) & (x[0] != x[2]) & (x[1] != x[2]); m.AppendTriangleIndices(x); }
  __vp_assert(m.ValidateTriangles().ok() == want, "valid exactly when indices are in range and distinct"); if (want) { auto x = m.TriangleIndices(1); Triangle g = m.GetTriangle(1); __vp_assert(g.p0 == m.VertexPosition(x[0]) && g.p1 == m.VertexPosition(x[1]) && g.p2 == m.VertexPosition(x[2]), "triangle corners"); } __vp_reach("end");
}
VP_ENTRY(m06_reset) { MutableMesh m; m.AppendVertex({1, 2}); m.AppendTriangleIndices({0, 0, 0}); MeshFormat f = *MeshFormat::Create({{T::kFloat1Unpacked, Id::kOpacityShift}, {T::kFloat2Unpacked, Id::kPosition}}, MeshFormat::IndexFormat::k16BitUnpacked16BitPacked); m.Reset(f); __vp_assert(m.VertexCount() == 0 && m.TriangleCount() == 0 && m.Format() == f && m.IndexStride() == 2 && m.VertexStride() == 12, "reset"); float x = Any("x"); m.AppendVertex({x, 3}); __vp_assert(m.VertexPosition(0).x == x && m.FloatVertexAttribute(0, 0)[0] == 0, "usable after reset"); __vp_reach("end"); }
// Every attribute type: a written value reads back, its neighbours in the vertex and the other vertices stay.
static int Components(T t) { switch (t) { case T::kFloat1Unpacked: case T::kFloat1PackedIn1UnsignedByte: return 1; case T::kFloat2Unpacked: case T::kFloat2PackedIn1Float: case T::kFloat2PackedIn3UnsignedBytes_XY12: case T::kFloat2PackedIn4UnsignedBytes_X12_Y20: return 2; case T::kFloat3Unpacked: case T::kFloat3PackedIn1Float: case T::kFloat3PackedIn2Floats: case T::kFloat3PackedIn4UnsignedBytes_XYZ10: return 3; default: return 4; } }
static const T kTypes[] = {T::kFloat1Unpacked, T::kFloat1PackedIn1UnsignedByte, T::kFloat2Unpacked, T::kFloat2PackedIn1Float, T::kFloat2PackedIn3UnsignedBytes_XY12, T::kFloat2PackedIn4UnsignedBytes_X12_Y20, T::kFloat3Unpacked, T::kFloat3PackedIn1Float, T::kFloat3PackedIn2Floats, T::kFloat3PackedIn4UnsignedBytes_XYZ10, T::kFloat4Unpacked, T::kFloat4PackedIn1Float, T::kFloat4PackedIn2Floats, T::kFloat4PackedIn3Floats};
VP_ENTRY(m06_types) {
  T t = kTypes[__vp_concretize(__vp_range("type", 0, 13))]; int n = Components(t); bool first = __vp_concretize(__vp_range("first", 0, 1)); MeshFormat f = first ? *MeshFormat::Create({{t, Id::kCustom3}, {T::kFloat2Unpacked, Id::kPosition}}, MeshFormat::IndexFormat::k16BitUnpacked16BitPacked) : *MeshFormat::Create({{T::kFloat2Unpacked, Id::kPosition}, {t, Id::kCustom3}}, MeshFormat::IndexFormat::k16BitUnpacked16BitPacked);
  int a = first ? 0 : 1, p = 1 - a; MutableMesh m(f); for (int i = 0; i < 3; ++i) m.AppendVertex({(float)i, 7}); SmallArray<float, 4> v(n), u(n); const char* vn[4] = {"v0", "v1", "v2", "v3"}; const char* un[4] = {"u0", "u1", "u2", "u3"}; for (int i = 0; i < n; ++i) { v[i] = Any(vn[i]); u[i] = Any(un[i]); }
  m.SetFloatVertexAttribute(2, a, u); m.SetFloatVertexAttribute(1, a, v); __vp_assert(m.VertexPositionAttributeIndex() == (uint32_t)p, "the position attribute");
  for (int i = 0; i < 3; ++i) { auto got = m.FloatVertexAttribute(i, a); __vp_assert(got.Size() == n, "component count"); bool ok = true; for (int k = 0; k < n; ++k) ok = ok & (got[k] == (i == 0 ? 0.f : i == 1 ? v[k] : u[k])); __vp_assert(ok, "written components read back, others stay"); __vp_assert((m.VertexPosition(i).x == (float)i) & (m.VertexPosition(i).y == 7), "positions stay"); } __vp_reach("end");
}
VP_ENTRY(m06_from_mesh) { // a mutable mesh made from a mesh holds what the mesh holds
  bool wide = __vp_concretize(__vp_range("w", 0, 1)); int n = __vp_concretize(__vp_range("n", 1, 3)); MeshFormat f = *MeshFormat::Create({{T::kFloat1Unpacked, Id::kCustom0}, {T::kFloat2Unpacked, Id::kPosition}, {T::kFloat4Unpacked, Id::kCustom1}}, wide ? MeshFormat::IndexFormat::k32BitUnpacked16BitPacked : MeshFormat::IndexFormat::k16BitUnpacked16BitPacked);
  float q[7][4]; for (int c = 0; c < 7; ++c) for (int i = 0; i < 4; ++i) q[c][i] = 10 * c + i; q[6][3] = __vp_f32_range("z", -100, 100); q[0][1] = __vp_f32_range("y", -100, 100); std::vector<absl::Span<const float>> at; for (auto& r : q) at.push_back(absl::MakeConstSpan(r, 4)); std::vector<uint32_t> ix; for (int t = 0; t < n; ++t) { uint32_t s = t; ix.push_back(s % 4); ix.push_back((s + 1) % 4); ix.push_back((s + 2) % 4); }
  auto mesh = Mesh::Create(f, at, ix); __vp_assert(mesh.ok(), "created"); if (!mesh.ok()) return; MutableMesh m = MutableMesh::FromMesh(*mesh); __vp_assert(m.Format() == f && m.VertexCount() == 4 && (int)m.TriangleCount() == n && m.ValidateTriangles().ok(), "format and counts"); for (int t = 0; t < n; ++t) { auto x = m.TriangleIndices(t), y = mesh->TriangleIndices(t); __vp_assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[0] == ix[3 * t] && x[1] == ix[3 * t + 1] && x[2] == ix[3 * t + 2], "triangles"); } for (int i = 0; i < 4; ++i) for (int a = 0; a < 3; ++a) { auto x = m.FloatVertexAttribute(i, a), y = mesh->FloatVertexAttribute(i, a); bool ok = x.Size() == y.Size(); for (int k = 0; k < x.Size(); ++k) ok = ok & (x[k] == y[k]) & (x[k] == q[(a == 0 ? 0 : a == 1 ? 1 : 3) + k][i]); __vp_assert(ok, "attributes"); } __vp_reach("end");
}
