// SRC: ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// OPT: budget=200
// BOUND: meshes of 3 (thorough: 4) vertices and 0 to 2 triangles with every index value, both index widths, every float position, one packed attribute on an exact grid, and omission lists of up to two attributes
// BOUND: quantized positions: one triangle, and two triangles sharing an edge, with one coordinate anywhere on a 1/64 grid over 4 quanta and the others from chosen slivers; 12/12 and 12/20 bit codes with unit quanta
// BOUND: an unreferenced vertex anywhere; custom packing parameters of every float scale and offset for the packed attribute
// ASSUME: meshes of more than 65536 vertices are not built here (partitioning is M05); flat_hash_map and flat_hash_set are replaced by lists; error texts are not modelled
#include <cmath>
#include <vector>

#include "ink/geometry/mutable_mesh.h"
#include "vp.h"
using namespace ink; typedef MeshFormat::AttributeType T; typedef MeshFormat::AttributeId Id; typedef MeshAttributeCodingParams P; typedef SmallArray<P::ComponentCodingParams, 4> A;
static int Pick(const char* n, int hi) { return __vp_concretize(__vp_range(n, 0, hi)); }
static MeshFormat::IndexFormat Width(bool w) { return w ? MeshFormat::IndexFormat::k32BitUnpacked16BitPacked : MeshFormat::IndexFormat::k16BitUnpacked16BitPacked; }
static MeshFormat Fmt(std::vector<std::pair<T, Id>> v, bool wide) { return *MeshFormat::Create(v, Width(wide)); }
static const char* vn[8] = {"x0", "x1", "x2", "x3", "y0", "y1", "y2", "y3"}; static const char* zn[4] = {"z0", "z1", "z2", "z3"}; static const char* in[6] = {"i0", "i1", "i2", "i3", "i4", "i5"};
static void RoundTrip(const Mesh& m, bool wide) { // the mesh copied back and converted again is the same
  MutableMesh b = MutableMesh::FromMesh(m); __vp_assert(b.VertexCount() == m.VertexCount() && b.TriangleCount() == m.TriangleCount() && b.Format() == m.Format(), "copied back: counts and format");
  for (uint32_t i = 0; i < m.TriangleCount(); ++i) __vp_assert(b.TriangleIndices(i) == m.TriangleIndices(i), "copied back: indices"); bool eq = true; for (uint32_t i = 0; i < m.VertexCount(); ++i) for (int a = 0; a < (int)m.Format().Attributes().size(); ++a) { auto x = b.FloatVertexAttribute(i, a), y = m.FloatVertexAttribute(i, a); __vp_assert(x.Size() == y.Size(), "components"); for (int k = 0; k < x.Size(); ++k) eq = eq & (x[k] == y[k]); } __vp_assert(eq, "copied back: attribute values");
}
static void Convert(int nv, int nt, bool wide, int omit) {
  // omit: 0 nothing, 1 the attribute, 2 the position, 3 one that does not exist, 4 the attribute twice
  MutableMesh m(Fmt({{T::kFloat1PackedIn1UnsignedByte, Id::kCustom0}, {T::kFloat2Unpacked, Id::kPosition}}, wide)); m.Resize(nv, nt); std::vector<float> x(nv), y(nv), z(nv); bool fin = true;
  for (int i = 0; i < nv; ++i) { x[i] = __vp_f32(vn[i]); y[i] = __vp_f32(vn[4 + i]); fin = fin & std::isfinite(x[i]) & std::isfinite(y[i]); z[i] = vp::grid(zn[i], -32, 31, 2); m.SetVertexPosition(i, {x[i], y[i]}); m.SetFloatVertexAttribute(i, 0, {z[i]}); }
  std::vector<std::array<uint32_t, 3>> tri(nt); bool valid = true; for (int t = 0; t < nt; ++t) { for (int k = 0; k < 3; ++k) { uint32_t v = wide ? __vp_u32(in[3 * t + k]) : __vp_u16(in[3 * t + k]); tri[t][k] = v; valid = valid & (v < (uint32_t)nv); } valid = valid & (tri[t][0] != tri[t][1]) & (tri[t][0] != tri[t][2]) & (tri[t][1] != tri[t][2]); m.SetTriangleIndices(t, tri[t]); }
  std::vector<Id> om; if (omit == 1 || omit == 4) om.push_back(Id::kCustom0); if (omit == 4) om.push_back(Id::kCustom0); if (omit == 2) om.push_back(Id::kPosition); if (omit == 3) om.push_back(Id::kOpacityShift); std::vector<std::optional<P>> cu; if (omit == 0) { cu.resize(2); cu[0] = P{.components = A(1, {.offset = -8, .scale = 0.25f})}; }
  auto r = m.AsMeshes(cu, om); if (nt == 0) { __vp_assert(r.ok() && r->empty(), "no triangles, no meshes"); __vp_reach("none"); return; } bool want = valid & fin & (omit == 0 || omit == 1 || omit == 4); if (omit == 4 && !r.ok()) return; __vp_assert(r.ok() == want, "converted exactly when indices, values and omitted attributes are valid"); if (!r.ok()) { __vp_reach("error"); return; }
  __vp_assert(r->size() == 1 && (*r)[0].TriangleCount() == (uint32_t)nt, "one mesh with all triangles"); const Mesh& g = (*r)[0]; int pos = omit ? 0 : 1; __vp_assert(g.Format().Attributes().size() == (size_t)pos + 1 && (int)g.VertexPositionAttributeIndex() == pos && g.Format().GetIndexFormat() == Width(wide), "the format without the omitted attributes");
  std::vector<bool> used(nv); std::vector<int> at(nv, -1); uint32_t count = 0; for (int t = 0; t < nt; ++t) { auto q = g.TriangleIndices(t); for (int k = 0; k < 3; ++k) { int v = __vp_concretize(tri[t][k]); __vp_assert(q[k] < g.VertexCount(), "index"); int s = __vp_concretize(q[k]); if (used[v]) { __vp_assert(at[v] == s, "a shared vertex stays shared"); continue; } for (int u = 0; u < nv; ++u) __vp_assert(at[u] != s, "vertices stay apart"); used[v] = true; at[v] = s; ++count; Point p = g.VertexPosition(s); __vp_assert((p.x == x[v]) & (p.y == y[v]), "positions in the order of the triangles"); if (!omit) __vp_assert(g.FloatVertexAttribute(s, 0)[0] == z[v], "attribute values"); } }
  __vp_assert(g.VertexCount() == count, "vertices without triangle are stripped, others kept once"); if (nt == 1) { auto b = g.Bounds().AsRect(); __vp_assert(b.has_value(), "bounds"); auto box = [&](const std::vector<float>& c, float mn, float mx) { bool l = false, h = false; for (int i = 0; i < nv; ++i) if (used[i]) { __vp_assert((mn <= c[i]) & (c[i] <= mx), "bounds hold the vertices in use"); l = l | (c[i] == mn); h = h | (c[i] == mx); } __vp_assert(l, "and are tight"); __vp_assert(h, "and are tight"); }; box(x, b->XMin(), b->XMax()); box(y, b->YMin(), b->YMax()); } RoundTrip(g, wide); __vp_reach("ok");
}
VP_ENTRY(m07_one) { int omit = Pick("omit", 4); Convert(3, 1, omit == 1 || omit == 3, omit); }
VP_ENTRY(m07_none) { Convert(Pick("nv", 2), 0, true, Pick("omit", 4)); }
VP_ENTRY(m07_two) { Convert(3, 2, true, 0); }
VP_ENTRY(m07_two_narrow) { Convert(3, 2, false, 1); }
VP_ENTRY_T(m07_four) { Convert(4, 2, Pick("wide", 1), Pick("omit", 1)); }
static float Area2(Point a, Point b, Point c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static float Abs(float v) { return v < 0 ? -v : v; }
static void Quantize(const std::vector<Point>& v, const std::vector<std::array<uint32_t, 3>>& tri, int type, bool lead) {
  static const T ty[2] = {T::kFloat2PackedIn3UnsignedBytes_XY12, T::kFloat2PackedIn4UnsignedBytes_X12_Y20}; std::vector<std::pair<T, Id>> at; if (lead) at.push_back({T::kFloat1PackedIn1UnsignedByte, Id::kCustom0}); at.push_back({ty[type], Id::kPosition}); MutableMesh m(Fmt(at, true)); m.Resize(v.size(), tri.size()); for (size_t i = 0; i < v.size(); ++i) m.SetVertexPosition(i, v[i]); for (size_t i = 0; i < tri.size(); ++i) m.SetTriangleIndices(i, tri[i]);
  std::vector<std::optional<P>> cu(1); cu[0] = P{.components = A(2, {.offset = 0, .scale = 1})}; std::vector<Id> om; if (lead) om.push_back(Id::kCustom0); auto r = m.AsMeshes(cu, om); __vp_assert(r.ok() && r->size() == 1 && (*r)[0].TriangleCount() == tri.size(), "converted"); const Mesh& g = (*r)[0];
  bool flipped = false; for (auto& t : tri) flipped = flipped | (Area2(v[t[0]], v[t[1]], v[t[2]]) < 0); bool any = false, nearest = true, close = true; for (size_t t = 0; t < tri.size(); ++t) { auto q = g.TriangleIndices(t); Point p[3]; for (int k = 0; k < 3; ++k) { p[k] = g.VertexPosition(q[k]); Point o = v[tri[t][k]]; nearest = nearest & (Abs(p[k].x - o.x) <= 0.5f) & (Abs(p[k].y - o.y) <= 0.5f); close = close & (Abs(p[k].x - o.x) <= 1) & (Abs(p[k].y - o.y) <= 1); } any = any | (Area2(p[0], p[1], p[2]) < 0); }
  __vp_assert(close, "no vertex moves by more than one quantum"); __vp_assert(nearest | !any, "vertices move further than rounding only where that leaves no flipped triangle"); __vp_assert(!flipped | nearest, "meshes with flipped triangles are just rounded"); if (tri.size() == 1) __vp_assert(flipped | !any, "a single triangle is never flipped by quantization"); if (!nearest) __vp_reach("corrected"); else if (any) __vp_reach("kept flipped"); else __vp_reach("fine");
}
static float Frac(const char* n) { static const float f[4] = {0, 0.375f, 0.5f, 0.625f}; return f[Pick(n, 3)]; }
static void Single(int which) { Point v[3] = {{1 + Frac("a"), 1}, {5, 2 + Frac("b")}, {3 + Frac("c"), 1.5f}}; float t = vp::grid("t", 0, 255, 6); if (which == 0) v[2].y = t; else if (which == 1) v[1].x = 2 + t; else v[0].y = t; Quantize({v[0], v[1], v[2]}, {{0, 1, 2}}, Pick("type", 1), Pick("lead", 1)); }
VP_ENTRY(m07_flip_a) { Single(0); }
VP_ENTRY(m07_flip_b) { Single(1); }
VP_ENTRY(m07_flip_c) { Single(2); }
static void Edge(int which) { // next to the ends of the code range
  bool top = Pick("top", 1); float o = top ? 4095 : 0, d = top ? -1 : 1; Point v[3] = {{8, Frac("a")}, {0, Frac("b")}, {3, 0.375f}}; float t = vp::grid("t", 0, 127, 6); v[which].y = t; for (auto& p : v) p = {p.x, o + d * p.y}; if (Pick("swap", 1)) for (auto& p : v) p = {p.y, p.x}; uint32_t f = Pick("f", 1); Quantize({v[0], v[1], v[2]}, {{0, 1 + f, 2 - f}}, 0, false);
}
VP_ENTRY(m07_edge_a) { Edge(0); }
VP_ENTRY(m07_edge_b) { Edge(1); }
VP_ENTRY(m07_edge_c) { Edge(2); }
static void Pair(int which) { Point v[4] = {{1 + Frac("a"), 1.375f}, {6, 2 + Frac("b")}, {3 + Frac("c"), 2.f}, {4, 1.25f}}; float t = vp::grid("t", 0, 255, 6); if (which == 0) v[2].y = t; else if (which == 1) v[3].y = t; else v[0].y = t; Quantize({v[0], v[1], v[2], v[3]}, {{0, 1, 2}, {1, 0, 3}}, 0, false); }
VP_ENTRY(m07_pair_a) { Pair(0); }
VP_ENTRY(m07_pair_b) { Pair(1); }
VP_ENTRY_T(m07_pair_c) { Pair(2); }
static void Fan(int shape, int k) { // thin triangles sharing vertices, where moving one vertex can turn a neighbour over
  std::vector<Point> v; std::vector<std::array<uint32_t, 3>> t; if (shape == 0) { v = {{7.125f, 1}, {19.625f, 3.75f}, {5.125f, 2}, {17.625f, 3.375f}, {14.125f, 3.75f}}; t = {{0, 3, 2}, {1, 2, 3}, {0, 1, 3}}; } else if (shape == 2) { v = {{14.75f, 3.125f}, {4, 2.25f}, {16.25f, 3.875f}, {3.5f, 1.25f}, {17.25f, 3.5f}, {3.625f, 1.625f}}; t = {{3, 4, 0}, {4, 1, 0}, {2, 3, 0}, {4, 5, 0}, {5, 0, 4}}; } else { v = {{17.5f, 1.875f}, {20.25f, 2.75f}, {1.75f, 3.375f}, {15, 2.5f}, {4.5f, 2.375f}}; t = {{3, 2, 0}, {3, 1, 4}, {4, 0, 2}}; }
  v[k].y = vp::grid("t", 0, 255, 6); Quantize(v, t, 0, false); }
VP_ENTRY(m07_fan_a) { Fan(0, 3); }
VP_ENTRY(m07_fan_b) { Fan(0, 2); }
VP_ENTRY(m07_fan_c) { Fan(1, 4); }
VP_ENTRY(m07_fan_d) { Fan(1, 3); }
VP_ENTRY(m07_fan_e) { Fan(2, 3); }
VP_ENTRY(m07_fan_f) { Fan(2, 1); }
VP_ENTRY(m07_stray) { // a vertex that belongs to no triangle changes nothing, wherever it is
  MutableMesh m(Fmt({{T::kFloat2PackedIn3UnsignedBytes_XY12, Id::kPosition}}, Pick("wide", 1))); float x = __vp_f32("x"), y = __vp_f32("y"); bool fin = std::isfinite(x) & std::isfinite(y); int at = Pick("at", 3); static const Point c[3] = {{0, 0}, {4095, 0}, {7, 4095}}; for (int i = 0, k = 0; i < 4; ++i) m.AppendVertex(i == at ? Point{x, y} : c[k++]); std::array<uint32_t, 3> t; for (uint32_t i = 0, k = 0; i < 4; ++i) if ((int)i != at) t[k++] = i; m.AppendTriangleIndices(t);
  auto r = m.AsMeshes(); __vp_assert(r.ok() == fin, "all values must be finite"); if (!r.ok()) { __vp_reach("error"); return; } const Mesh& g = (*r)[0]; __vp_assert(r->size() == 1 && g.VertexCount() == 3, "it is stripped"); for (int i = 0; i < 3; ++i) { Point p = g.VertexPosition(g.TriangleIndices(0)[i]); __vp_assert((p.x == c[i].x) & (p.y == c[i].y), "the others keep their positions"); } RoundTrip(g, true); __vp_reach("ok");
}
VP_ENTRY(m07_value) { // any value of any attribute: refused exactly when it is not finite and not left out
  MutableMesh m(Fmt({{T::kFloat2Unpacked, Id::kCustom0}, {T::kFloat2Unpacked, Id::kPosition}, {T::kFloat1Unpacked, Id::kCustom1}}, Pick("wide", 1))); int at = Pick("at", 2), v = Pick("v", 3), om = Pick("om", 3); float f = __vp_f32("f"); for (int i = 0; i < 4; ++i) { m.AppendVertex({(float)i, (float)(i & 1)}); m.SetFloatVertexAttribute(i, 0, {1.f + i, 2.f}); m.SetFloatVertexAttribute(i, 2, {3.f * i}); } if (at == 0) m.SetFloatVertexAttribute(v, 0, {1.f + v, f}); else if (at == 1) m.SetVertexPosition(v, {f, 0}); else m.SetFloatVertexAttribute(v, 2, {f}); m.AppendTriangleIndices({0, 1, 2}); m.AppendTriangleIndices({1, 3, 2}); std::vector<Id> omit; if (om & 1) omit.push_back(Id::kCustom0); if (om & 2) omit.push_back(Id::kCustom1);
  auto r = m.AsMeshes({}, omit); bool left = (at == 0 && (om & 1)) || (at == 2 && (om & 2)); __vp_assert(r.ok() == (left || f - f == 0), "converted exactly when every value that is kept is finite"); if (!r.ok()) { __vp_reach("error"); return; } __vp_assert(r->size() == 1 && (*r)[0].VertexCount() == 4, "one mesh"); const Mesh& g = (*r)[0]; int first = om & 1 ? 0 : 1; __vp_assert((int)g.VertexPositionAttributeIndex() == first, "position index"); uint32_t tri[2][3] = {{0, 1, 2}, {1, 3, 2}}; for (int t = 0; t < 2; ++t) for (int k = 0; k < 3; ++k) { uint32_t q = g.TriangleIndices(t)[k]; uint32_t o = tri[t][k]; auto hit = [&](int a) { return at == a && (int)o == v; }; Point p = g.VertexPosition(q); __vp_assert(p.x == (hit(1) ? f : o), "position"); if (!(om & 1)) { auto a = g.FloatVertexAttribute(q, 0); __vp_assert(a.Size() == 2 && a[0] == 1.f + o && a[1] == (hit(0) ? f : 2.f), "first attribute"); if (hit(0)) { auto b = g.AttributeBounds(0); __vp_assert(b.has_value() && b->minimum[1] == (f < 2 ? f : 2.f) && b->maximum[1] == (f > 2 ? f : 2.f), "attribute bounds"); } } if (!(om & 2)) { auto a = g.FloatVertexAttribute(q, first + 1); __vp_assert(a.Size() == 1 && a[0] == (hit(2) ? f : 3.f * o), "last attribute"); } } __vp_reach("ok");
}
VP_ENTRY(m07_params) { // custom parameters must be valid and able to represent the values
  MutableMesh m(Fmt({{T::kFloat1PackedIn1UnsignedByte, Id::kCustom0}, {T::kFloat2Unpacked, Id::kPosition}}, true)); m.Resize(3, 1); m.SetTriangleIndices(0, {0, 1, 2}); float lo = 2, hi = 5; m.SetFloatVertexAttribute(0, 0, {lo}); m.SetFloatVertexAttribute(1, 0, {hi}); m.SetFloatVertexAttribute(2, 0, {3}); int k = Pick("k", 3); std::vector<std::optional<P>> cu(k == 2 ? 3 : 2); float s = 0.25f, o = 0; if (k == 0) { if (Pick("so", 1)) s = __vp_f32("s"); else o = __vp_f32("o"); } cu[0] = P{.components = A(k == 3 ? 2 : 1, {.offset = o, .scale = s})}; if (k == 1) cu[1] = P{.components = A(2, {.offset = 0, .scale = 1})};
  auto r = m.AsMeshes(cu, {}); bool fine = std::isfinite(s) & std::isfinite(o) & (s > 0); if (k) { __vp_assert(!r.ok(), "parameters for unpacked attributes, of the wrong number or size are refused"); __vp_reach("shape"); return; } if (!fine) { __vp_assert(!r.ok(), "parameters must be finite with a positive scale"); __vp_reach("invalid"); return; } if (s != 0.25f) return; bool clear = (o <= lo) & (o >= -58), out = (o > hi) | (o < -60); if (clear) __vp_assert(r.ok(), "representable"); if (out) __vp_assert(!r.ok(), "not representable"); if (!r.ok() || !clear) return; const Mesh& g = (*r)[0]; __vp_assert(g.VertexAttributeUnpackingParams(0).components[0].offset == o, "the parameters are used"); __vp_reach("ok");
}
