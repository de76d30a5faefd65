// SRC: ink/rendering/skia/native/internal/path_drawable.cc ink/rendering/skia/native/internal/mesh_drawable.cc ink/rendering/skia/native/internal/mesh_uniform_data.cc ink/rendering/skia/common_internal/mesh_specification_data.cc ink/color/color.cc ink/color/color_space.cc
// SRC: ink/geometry/partitioned_mesh.cc ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/internal/algorithms.cc ink/geometry/affine_transform.cc ink/geometry/quad.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// FLAGS: -DINK_VERIFY_MAX_VERTICES_PER_PARTITION=4
// OPT: budget=100
// BOUND: meshes of 5 vertices in one or two partitions with up to 2 outlines of up to 3 vertices each (all index values), all vertex positions and colours; mesh drawables of up to 3 partitions with any counts and histories of 3 operations
// ASSUME: Skia is not available: canvas, paths, paints, meshes and buffers are replaced by stand-ins that record what they are given and refuse what Skia documents to refuse
#include <cmath>
#include <cstring>
#include <vector>

#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/rendering/skia/native/internal/mesh_drawable.h"
#include "ink/rendering/skia/native/internal/path_drawable.h"
#include "vp.h"
using namespace ink; using namespace ink::skia_native_internal; using D = skia_common_internal::MeshSpecificationData; typedef MeshFormat::AttributeType T; typedef MeshFormat::AttributeId Id; typedef PartitionedMesh PM;
static float U(const char* n) { return __vp_f32_range(n, -1, 2); }
struct Rgba { float r = U("r"), g = U("g"), b = U("b"), a = __vp_f32_range("a", 0, 1); Color Make(ColorSpace s = ColorSpace::kSrgb) const { return Color::FromFloat(r, g, b, a, Color::Format::kLinear, s); } };
static void Paths(const SkCanvas& c, const std::vector<std::vector<Point>>& want) {
  __vp_assert(c.paths.size() == want.size() && c.meshes.empty(), "one path per outline that is not empty"); if (c.paths.size() != want.size()) return;
  for (size_t k = 0; k < want.size(); ++k) { const SkPath& p = c.paths[k].path; __vp_assert(p.fill == SkPathFillType::kWinding && p.verbs.size() == want[k].size() + 1, "a closed polygon filled by winding"); if (p.verbs.size() != want[k].size() + 1) continue; bool ok = p.verbs.back().kind == 2; for (size_t i = 0; i < want[k].size(); ++i) ok = ok & (p.verbs[i].kind == (i ? 1 : 0)) & (p.verbs[i].x == want[k][i].x) & (p.verbs[i].y == want[k][i].y); __vp_assert(ok, "the polygon visits the outline's vertices in order"); }
}
static void Paint(const SkCanvas& c, const Color& color, float m) { auto l = color.InColorSpace(ColorSpace::kSrgb).AsFloat(Color::Format::kLinear); for (const auto& k : c.paths) { const SkPaint& p = k.paint; __vp_assert(p.aa && p.style == SkPaint::kFill_Style && p.space == 1, "filled smoothly in linear sRGB"); __vp_assert((p.color.fR == l.r) & (p.color.fG == l.g) & (p.color.fB == l.b) & (p.color.fA == l.a * m), "the colour with its opacity scaled"); } }
static MutableMesh Five() { MutableMesh m(*MeshFormat::Create({{T::kFloat2Unpacked, Id::kPosition}}, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked)); m.AppendVertex({__vp_f32_range("x", -9, 9), 0}); m.AppendVertex({1, 0}); m.AppendVertex({0, __vp_f32_range("y", 1, 9)}); m.AppendVertex({-20, 5}); m.AppendVertex({-20, -5}); return m; }
static int C(const char* n, int lo, int hi) { return __vp_concretize(__vp_range(n, lo, hi)); }
static std::vector<std::vector<uint32_t>> Outlines() { std::vector<std::vector<uint32_t>> o; int n = C("n", 0, 2); static const char* ln[2] = {"l0", "l1"}; static const char* vn[2][3] = {{"i0", "i1", "i2"}, {"j0", "j1", "j2"}}; for (int k = 0; k < n; ++k) { o.emplace_back(); int l = C(ln[k], 0, k ? 1 : 3); for (int i = 0; i < l; ++i) o[k].push_back(C(vn[k][i], 0, 4)); } return o; }
VP_ENTRY(r04_path_mutable) {
  MutableMesh m = Five(); auto o = Outlines(); std::vector<absl::Span<const uint32_t>> s(o.begin(), o.end()); Rgba c; float k = __vp_f32_range("k", 0, 1); PathDrawable d(m, s, c.Make(), k); SkCanvas canvas; d.Draw(canvas); std::vector<std::vector<Point>> want; for (auto& q : o) if (!q.empty()) { want.emplace_back(); for (uint32_t i : q) want.back().push_back(m.VertexPosition(i)); } Paths(canvas, want); Paint(canvas, c.Make(), k); __vp_reach("end");
}
VP_ENTRY(r04_path_shape) {
  MutableMesh m = Five(), other = Five(); m.AppendTriangleIndices({0, 1, 2}); m.AppendTriangleIndices({0, 3, 4}); other.AppendTriangleIndices({0, 3, 4}); auto o = Outlines(); for (auto& q : o) if (q.empty()) return; std::vector<absl::Span<const uint32_t>> s(o.begin(), o.end()); std::vector<uint32_t> first = {4, 0}; std::vector<absl::Span<const uint32_t>> fs = {first}; std::vector<PM::MutableMeshGroup> groups = {{&other, fs, {}, {}}, {&m, s, {}, {}}};
  auto shape = PM::FromMutableMeshGroups(groups); if (!shape.ok()) { __vp_assert(false, "a shape"); return; } int g = C("g", 0, 1); PathDrawable d(*shape, g, Color::Red(), 0.5f); SkCanvas canvas; d.Draw(canvas); std::vector<std::vector<Point>> want; if (g == 0) want = {{other.VertexPosition(4), other.VertexPosition(0)}}; else for (auto& q : o) { want.emplace_back(); for (uint32_t i : q) want.back().push_back(m.VertexPosition(i)); } __vp_assert(shape->RenderGroupMeshes(1).size() == 2, "two partitions"); Paths(canvas, want); Paint(canvas, Color::Red(), 0.5f); __vp_reach("end");
}
VP_ENTRY(r04_path_colour) { // colours set later use the same opacity, also in copies; copies are independent
  MutableMesh m = Five(); std::vector<uint32_t> o = {0, 1, 2}; std::vector<absl::Span<const uint32_t>> s = {o}; Rgba c; ColorSpace cs = C("cs", 0, 1) ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb; float k = __vp_f32_range("k", 0, 1); PathDrawable d(m, s, Color::Blue(), k), e = d; e.SetPaintColor(c.Make(cs)); SkCanvas a, b; d.Draw(a); e.Draw(b); Paint(a, Color::Blue(), k); Paint(b, c.Make(cs), k); Paths(b, {{m.VertexPosition(0), m.VertexPosition(1), m.VertexPosition(2)}}); PathDrawable none; SkCanvas z; none.Draw(z); __vp_assert(z.paths.empty(), "nothing in a default-constructed drawable"); __vp_reach("end");
}
// ---- mesh drawables
static sk_sp<SkMeshSpecification> Spec(unsigned mask) { sk_sp<SkMeshSpecification> s(new SkMeshSpecification); static const D::UniformId u[3] = {D::UniformId::kObjectToCanvasLinearComponent, D::UniformId::kBrushColor, D::UniformId::kTextureMapping}; for (int k = 0; k < 3; ++k) if (mask >> k & 1) { s->list.push_back({D::GetUniformName(u[k]), k == 2 ? SkMeshSpecification::Uniform::Type::kInt : SkMeshSpecification::Uniform::Type::kFloat4, s->size}); s->size += 16; } return s; }
static MeshDrawable::Partition Part(int v, int i) { return {.vertex_buffer = sk_sp<SkMesh::VertexBuffer>(new SkMesh::VertexBuffer), .index_buffer = sk_sp<SkMesh::IndexBuffer>(new SkMesh::IndexBuffer), .vertex_count = v, .index_count = i, .bounds = {1.f * v, 2.f * i, 3, 4}}; }
VP_ENTRY(r04_mesh_create) {
  unsigned mask = C("mask", 0, 7); int n = C("n", 0, 3); auto spec = Spec(mask); sk_sp<SkBlender> bl(new SkBlender); sk_sp<SkShader> sh(new SkShader); absl::InlinedVector<MeshDrawable::Partition, 1> ps; bool want = true; static const char* vn[3] = {"v0", "v1", "v2"}; static const char* in[3] = {"i0", "i1", "i2"}; for (int k = 0; k < n; ++k) { int v = C(vn[k], 2, 4), i = k == 1 ? 3 : C(in[k], 2, 3) * 2 - 1; ps.push_back(Part(v, i)); want = want && v >= 3 && i >= 3 && i % 3 == 0; } auto keep = ps; auto d = MeshDrawable::Create(spec, bl, sh, ps);
  __vp_assert(d.ok() == want, "created exactly when every partition can be drawn"); if (!d.ok() || !want) { __vp_reach("refused"); return; } __vp_assert(d->HasObjectToCanvas() == (mask & 1) && d->HasBrushColor() == !!(mask & 2) && d->HasTextureMapping() == !!(mask & 4), "uniforms of the specification"); SkCanvas c; d->Draw(c); __vp_assert((int)c.meshes.size() == n && c.paths.empty(), "every partition once"); for (int k = 0; k < n && (int)c.meshes.size() == n; ++k) { const auto& m = c.meshes[k]; __vp_assert(m.mesh.valid && m.mesh.spec.get() == spec.get() && m.mesh.mode == SkMesh::Mode::kTriangles && m.mesh.vb.get() == keep[k].vertex_buffer.get() && m.mesh.ib.get() == keep[k].index_buffer.get() && (int)m.mesh.vc == keep[k].vertex_count && (int)m.mesh.ic == keep[k].index_count && m.mesh.vo == 0 && m.mesh.io == 0 && m.mesh.bounds.fTop == keep[k].bounds.fTop && m.mesh.bounds.fLeft == keep[k].bounds.fLeft, "with its own buffers, counts and bounds"); __vp_assert(m.blender.get() == bl.get() && m.paint.shader.get() == sh.get() && m.paint.white, "with the blender and the shader on white"); } __vp_reach("drawn");
}
VP_ENTRY(r04_mesh_history) { // every draw shows the values set last; meshes drawn before keep theirs
  auto spec = Spec(7); absl::InlinedVector<MeshDrawable::Partition, 1> ps{Part(3, 3), Part(4, 6)}; MeshUniformData start(*spec); start.SetBrushColor(Color::Green()); start.SetTextureMapping(BrushPaint::TextureMapping::kTiling); start.SetObjectToCanvasLinearComponent(AffineTransform::Identity()); auto d = MeshDrawable::Create(spec, nullptr, nullptr, ps, start); if (!d.ok()) { __vp_assert(false, "created"); return; } MeshDrawable other = *d;
  struct Model { float t[4] = {1, 0, 0, 1}, c[4] = {0, 0, 0, 1}; int m = 0; } w, first; auto green = Color::Green().AsFloat(Color::Format::kLinear); w.c[0] = green.r; w.c[1] = green.g; w.c[2] = green.b; w.c[3] = green.a; w.m = (int)BrushPaint::TextureMapping::kTiling; first = w;
  auto same = [&](const SkCanvas& c, const Model& w) { bool ok = c.meshes.size() == 2; for (auto& m : c.meshes) { float f[8]; int x; std::memcpy(f, m.mesh.uniforms->bytes(), 32); std::memcpy(&x, m.mesh.uniforms->bytes() + 32, 4); for (int i = 0; i < 4; ++i) ok = ok & (f[i] == w.t[i]) & (f[4 + i] == w.c[i]); ok = ok & (x == w.m); } return ok; };
  SkCanvas before; Model wb; bool drawn = false; static const char* on[3] = {"o0", "o1", "o2"}; static const char* xn[3][4] = {{"a0", "a1", "a2", "a3"}, {"b0", "b1", "b2", "b3"}, {"c0", "c1", "c2", "c3"}};
  for (int k = 0; k < 3; ++k) { int op = C(on[k], 0, 3); float v[4]; if (op < 2) for (int i = 0; i < 4; ++i) v[i] = __vp_f32_range(xn[k][i], 0, 1); switch (op) { case 0: d->SetObjectToCanvas(AffineTransform(v[0], v[1], 7, v[2], v[3], 8)); w.t[0] = v[0]; w.t[1] = v[2]; w.t[2] = v[1]; w.t[3] = v[3]; break; case 1: d->SetBrushColor(Color::FromFloat(v[0], v[1], v[2], v[3], Color::Format::kLinear)); for (int i = 0; i < 4; ++i) w.c[i] = v[i]; break; case 2: { int x = __vp_range(xn[k][0], 0, 1); d->SetTextureMapping((BrushPaint::TextureMapping)x); w.m = x; break; } default: before = SkCanvas(); d->Draw(before); wb = w; drawn = true; } }
  SkCanvas last, copy; d->Draw(last); other.Draw(copy); __vp_assert(same(last, w), "drawn with the values set last"); if (drawn) __vp_assert(same(before, wb), "meshes drawn before keep their values"); __vp_assert(same(copy, first), "copies keep their own values"); __vp_reach("end");
}
