// SRC: ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc
// OPT: budget=120
// BOUND: 0..3 vertices, 0..2 triangles, every index value and every float attribute value (unpacked position and a packed attribute with exact custom parameters)
// BOUND: default packing: 3 vertices of an XY12 position whose bounds come from 4 ranges, the third vertex anywhere between
// ASSUME: error texts are not modelled
#include <cmath>
#include <vector>

#include "ink/geometry/mesh.h"
#include "vp.h"
using namespace ink; typedef MeshFormat::AttributeType T; typedef MeshFormat::AttributeId Id;
static const char* vn[9] = {"x0", "x1", "x2", "y0", "y1", "y2", "z0", "z1", "z2"}; static const char* in[6] = {"i0", "i1", "i2", "i3", "i4", "i5"};
static MeshFormat Fmt(std::vector<std::pair<T, Id>> v) { return *MeshFormat::Create(v, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked); }
static void Check(const Mesh& m, int nv, const std::vector<float>* at, const std::vector<uint32_t>& ix) {
  __vp_assert(m.VertexCount() == nv && m.TriangleCount() == ix.size() / 3, "counts"); for (int t = 0; t < (int)ix.size() / 3; t++) { auto a = m.TriangleIndices(t); __vp_assert(a[0] == ix[3 * t] && a[1] == ix[3 * t + 1] && a[2] == ix[3 * t + 2], "triangle indices in order"); }
  for (int i = 0; i < nv; i++) { Point p = m.VertexPosition(i); __vp_assert(p.x == at[0][i] && p.y == at[1][i], "vertex position"); }
  Envelope e = m.Bounds(); auto r = e.AsRect(); __vp_assert(r.has_value() == (nv > 0), "bounds of an empty mesh are empty"); if (!r) return; bool in = true, tx = false, Tx = false, ty = false, Ty = false;
  for (int i = 0; i < nv; i++) { float x = at[0][i], y = at[1][i]; in = in & (r->XMin() <= x) & (x <= r->XMax()) & (r->YMin() <= y) & (y <= r->YMax()); tx = tx | (x == r->XMin()); Tx = Tx | (x == r->XMax()); ty = ty | (y == r->YMin()); Ty = Ty | (y == r->YMax()); }
  __vp_assert(in & tx & Tx & ty & Ty, "bounds are the bounding box of the positions");
}
static void Make(int nv, int ni, int spans, int shortspan) {
  std::vector<float> at[3]; bool fin = true, inr = true, even = true; for (int k = 0; k < 3; k++) for (int i = 0; i < nv - (k == shortspan ? 1 : 0); i++) { float f; if (k == 2) f = vp::grid(vn[6 + i], -32, 31, 2); else { f = __vp_f32(vn[3 * k + i]); fin = fin & std::isfinite(f); } at[k].push_back(f); }
  if (shortspan >= 0 && nv > 0) even = false; std::vector<uint32_t> ix; for (int i = 0; i < ni; i++) { ix.push_back(__vp_u32(in[i])); inr = inr & (ix.back() < nv); }
  std::vector<absl::Span<const float>> sp; for (int k = 0; k < spans; k++) sp.push_back(at[k % 3]); auto fmt = Fmt({{T::kFloat2Unpacked, Id::kPosition}, {T::kFloat1PackedIn1UnsignedByte, Id::kCustom0}});
  std::vector<std::optional<MeshAttributeCodingParams>> cu(2); cu[1] = MeshAttributeCodingParams{.components = SmallArray<MeshAttributeCodingParams::ComponentCodingParams, 4>(1, {.offset = -8, .scale = 0.25f})};
  bool range = true; if (spans == 3 && fin && even && nv > 0) for (int k = 0; k < 2; k++) { float lo = at[k][0], hi = lo; for (float f : at[k]) { lo = f < lo ? f : lo; hi = f > hi ? f : hi; } range = range & std::isfinite(hi - lo); }
  auto m = Mesh::Create(fmt, sp, ix, cu); bool want = (spans == 3) & even & fin & (ni % 3 == 0) & inr;
  if (!range) return;  // an unrepresentable range is checked in m04_range
  __vp_assert(m.ok() == want, "created exactly when the arguments are valid"); if (!m.ok()) { __vp_reach("error"); return; }
  Check(*m, nv, at, ix); for (int i = 0; i < nv; i++) { auto v = m->FloatVertexAttribute(i, 1); __vp_assert(v.Size() == 1 && v[0] == at[2][i], "attribute"); auto u = m->PackedIntegersForFloatVertexAttribute(i, 1); __vp_assert((float)u[0] * 0.25f - 8 == at[2][i], "packed code"); }
  if (nv > 0) { auto b = m->AttributeBounds(1); __vp_assert(b.has_value(), "bounds"); bool in = true; for (float f : at[2]) in = in & (b->minimum[0] <= f) & (f <= b->maximum[0]); __vp_assert(in, "attribute bounds cover the values"); __vp_assert(m->VertexAttributeUnpackingParams(1).components[0].scale == 0.25f, "custom parameters"); } else __vp_assert(!m->AttributeBounds(0).has_value(), "no bounds");
  __vp_assert(m->RawVertexData().size() == nv * m->VertexStride() && m->RawIndexData().size() == ix.size() * m->IndexStride(), "raw sizes"); Mesh c = *m; __vp_assert(c.RawVertexData().data() == m->RawVertexData().data(), "copies share data"); __vp_reach("ok");
}
VP_ENTRY(m04_three_vertices) { Make(3, 3 * __vp_concretize(__vp_range("t", 0, 2)), 3, -1); }
VP_ENTRY(m04_few_vertices) { Make(__vp_concretize(__vp_range("nv", 0, 2)), 3 * __vp_concretize(__vp_range("t", 0, 1)), 3, -1); }
VP_ENTRY(m04_one_value) {  // any value of any attribute: refused exactly when it is not finite
  int nv = 1 + __vp_concretize(__vp_range("nv", 0, 2)), at = __vp_concretize(__vp_range("at", 0, 4)), v = __vp_concretize(__vp_range("v", 0, nv - 1)); float f = __vp_f32("f"); std::vector<float> c[5]; for (int k = 0; k < 5; k++) for (int i = 0; i < nv; i++) c[k].push_back(i == v && k == at ? f : (float)(k + i)); std::vector<absl::Span<const float>> sp; for (int k = 0; k < 5; k++) sp.push_back(c[k]); std::vector<uint32_t> ix; if (nv == 3) ix = {2, 0, 1};
  auto m = Mesh::Create(Fmt({{T::kFloat2Unpacked, Id::kCustom1}, {T::kFloat2Unpacked, Id::kPosition}, {T::kFloat1Unpacked, Id::kCustom0}}), sp, ix); __vp_assert(m.ok() == (f - f == 0), "created exactly when every value is finite"); if (!m.ok()) { __vp_reach("error"); return; } Point p = m->VertexPosition(v); auto w = m->FloatVertexAttribute(v, at < 2 ? 0 : at < 4 ? 1 : 2); __vp_assert(w[at & 1 & (at < 4)] == f, "the value"); if (at == 2) __vp_assert(p.x == f, "position x"); if (at == 3) __vp_assert(p.y == f, "position y"); __vp_reach("ok");
}
VP_ENTRY(m04_bad_counts) { int k = __vp_concretize(__vp_range("k", 0, 6)); if (k < 3) Make(2, 3, 3, k); else if (k == 3) Make(2, 3, 2, -1); else if (k == 4) Make(2, 3, 4, -1); else if (k == 5) Make(1, 1, 3, -1); else Make(1, 5, 3, -1); }
VP_ENTRY(m04_empty_default) { Mesh m; __vp_assert(m.VertexCount() == 0 && m.TriangleCount() == 0 && m.Bounds().IsEmpty(), "empty"); std::vector<float> f(65537); std::vector<absl::Span<const float>> sp{f, f}; __vp_assert(!Mesh::Create(MeshFormat(), sp, {}).ok(), "too many vertices"); __vp_reach("end"); }
VP_ENTRY(m04_range) {  // the default packing of a range that overflows is refused
  float a = __vp_f32("a"), b = __vp_f32("b"); __vp_assume(a - a == 0); __vp_assume(b - b == 0); std::vector<float> x{a, b}, y{0, 1}; std::vector<absl::Span<const float>> sp{x, y}; bool packed = __vp_bool("p"); uint32_t ix[3] = {0, 1, 1};
  if (packed) __vp_assume(!std::isfinite(a - b)); auto m = Mesh::Create(Fmt({{packed ? T::kFloat2PackedIn3UnsignedBytes_XY12 : T::kFloat2Unpacked, Id::kPosition}}), sp, absl::MakeConstSpan(ix, 3)); if (packed) { __vp_assert(!m.ok(), "range overflow"); __vp_reach("overflow"); } else { __vp_assert(m.ok(), "unpacked values need no range"); __vp_assert(m->VertexPosition(1).x == b, "kept"); __vp_reach("unpacked"); }
}
VP_ENTRY(m04_default_packing) {
  static const float lo[4] = {0, -3, 0.1f, -4096}, hi[4] = {1, 5, 0.7f, 8000}; int k = __vp_concretize(__vp_range("k", 0, 3)), f = __vp_concretize(__vp_range("f", 0, 2)); static const float below[4] = {0x1.fffffep-1f, 0x1.3ffffep2f, 0x1.666664p-1f, 0x1.f3fffep12f}; float v = __vp_f32_range("v", lo[k], below[k]);
  static const T ty[3] = {T::kFloat2PackedIn3UnsignedBytes_XY12, T::kFloat2PackedIn4UnsignedBytes_X12_Y20, T::kFloat2PackedIn1Float}; bool isy = (k ^ f) & 1; std::vector<float> a{hi[k], v, lo[k]}, b{2, 2, 2}; std::vector<absl::Span<const float>> sp{isy ? b : a, isy ? a : b}; uint32_t ix[3] = {2, 0, 1};
  auto m = Mesh::Create(Fmt({{ty[f], Id::kPosition}}), sp, absl::MakeConstSpan(ix, 3)); __vp_assert(m.ok(), "created"); float s = m->VertexAttributeUnpackingParams(0).components[isy].scale; float q[3]; for (int i = 0; i < 3; i++) { Point p = m->VertexPosition(i); q[i] = isy ? p.y : p.x; __vp_assert((isy ? p.x : p.y) == 2, "constant coordinate"); }
  int bits = f == 1 && isy ? 20 : 12; float big = 8192; big = std::fabs(hi[k]) < 256 ? 256 : 8192; float tol = 0.5f * s + 4e-7f * big; __vp_assert(q[2] == lo[k], "minimum is exact"); __vp_assert(std::fabs(q[0] - hi[k]) <= 4e-7f * big, "maximum up to rounding");
  auto c = m->PackedIntegersForFloatVertexAttribute(1, 0); float code = (float)c[isy]; __vp_assert(c[isy] < (1u << bits), "code"); __vp_assert(q[1] == code * s + lo[k], "unpacked"); float d = (v - lo[k]) / s; __vp_assert(code - d <= 0.5f && d - code <= 0.5f, "nearest code"); (void)tol; __vp_reach("end");
}
