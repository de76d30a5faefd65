// SRC: ink/rendering/skia/native/internal/mesh_specification_cache.cc ink/rendering/skia/native/internal/create_mesh_specification.cc ink/rendering/skia/common_internal/mesh_specification_data.cc
// SRC: ink/strokes/in_progress_stroke.cc ink/strokes/stroke.cc ink/strokes/internal/stroke_vertex.cc ink/strokes/internal/stroke_shape_update.cc ink/strokes/internal/stroke_input_modeler.cc ink/strokes/internal/brush_tip_extruder.cc ink/strokes/internal/brush_tip_extruder/geometry.cc ink/brush/brush.cc ink/brush/brush_family.cc ink/brush/brush_coat.cc ink/brush/brush_tip.cc ink/brush/brush_paint.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/color/color.cc ink/color/color_space.cc ink/types/uri.cc ink/types/duration.cc ink/types/physical_distance.cc ink/strokes/input/stroke_input_batch.cc ink/strokes/input/stroke_input.cc ink/strokes/input/internal/stroke_input_validation_helpers.cc ink/geometry/partitioned_mesh.cc ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/internal/algorithms.cc ink/geometry/affine_transform.cc ink/geometry/quad.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// FLAGS: -fno-delete-null-pointer-checks
// OPT: budget=100
// BOUND: specifications of up to 8 attributes, 6 varyings and 6 uniforms (3 of each of any type), any offsets and stride; Skia refusing, or reporting the uniforms in any of 6 relations to the expected ones; histories of 4 requests to a cache over 10 kinds of request
// ASSUME: Skia is not available: making specifications is replaced by a stand-in that records what it is given; StrokeShapeBuilder is replaced as in S04
#include "builder_ref.h"
#include "ink/brush/brush.h"
#include "ink/strokes/in_progress_stroke.h"
#include "ink/rendering/skia/native/internal/create_mesh_specification.h"
#include "ink/rendering/skia/native/internal/mesh_specification_cache.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "include/core/SkColorSpace.h"
#include "vp.h"
using namespace ink; using namespace ink::skia_native_internal; using D = skia_common_internal::MeshSpecificationData; typedef SkMeshSpecification S; typedef MeshFormat::AttributeType T; typedef MeshFormat::AttributeId Id; typedef PartitionedMesh PM;
// What Skia was last given, and what it does with it.
static struct { int made = 0; std::vector<S::Attribute> a; std::vector<S::Varying> v; size_t stride = 0; std::string vs, fs; int space = 0; SkAlphaType alpha = kUnknown_SkAlphaType; bool refuse = false; std::vector<S::Uniform> gives; } sk;
S::Result S::Make(absl::Span<const Attribute> a, size_t stride, absl::Span<const Varying> v, const SkString& vs, const SkString& fs, sk_sp<SkColorSpace> space, SkAlphaType alpha) {
  ++sk.made; sk.a.assign(a.begin(), a.end()); sk.v.assign(v.begin(), v.end()); sk.stride = stride; sk.vs = vs.s; sk.fs = fs.s; sk.space = space ? space->kind : 0; sk.alpha = alpha; Result r; if (sk.refuse) { r.error = SkString("refused"); return r; } r.specification = sk_sp<S>(new S); r.specification->list = sk.gives; return r;
}
static int C(const char* n, int lo, int hi) { return __vp_concretize(__vp_range(n, lo, hi)); }
static const D::UniformId kU[6] = {D::UniformId::kObjectToCanvasLinearComponent, D::UniformId::kBrushColor, D::UniformId::kPositionUnpackingTransform, D::UniformId::kSideDerivativeUnpackingTransform, D::UniformId::kForwardDerivativeUnpackingTransform, D::UniformId::kTextureMapping};
static S::Uniform Uni(int k, bool is_int) { return {D::GetUniformName(kU[k]), is_int ? S::Uniform::Type::kInt : S::Uniform::Type::kFloat4, (size_t)16 * k}; }
static const char* an[8] = {"alpha", "b", "gamma", "alph", "e", "f", "g", "positionAndOpacityShift"};
static const D::AttributeType at[3] = {D::AttributeType::kFloat2, D::AttributeType::kFloat3, D::AttributeType::kUByte4};
static bool Same(const D& d) { // Skia was given exactly the listed attributes, varyings, stride and programs
  static const S::Attribute::Type wa[3] = {S::Attribute::Type::kFloat2, S::Attribute::Type::kFloat3, S::Attribute::Type::kUByte4_unorm}; bool ok = sk.a.size() == d.attributes.Size() && sk.v.size() == d.varyings.Size(); if (!ok) return false;
  for (size_t i = 0; i < sk.a.size(); ++i) { const auto& w = d.attributes[i]; int k = w.type == at[0] ? 0 : w.type == at[1] ? 1 : 2; ok = ok && sk.a[i].type == wa[k] && sk.a[i].name.s == w.name; ok = ok & (sk.a[i].offset == (size_t)w.offset); }
  for (size_t i = 0; i < sk.v.size(); ++i) ok = ok && sk.v[i].name.s == d.varyings[i].name && sk.v[i].type == (d.varyings[i].type == D::VaryingType::kFloat2 ? S::Varying::Type::kFloat2 : S::Varying::Type::kFloat4);
  return ok & (sk.stride == (size_t)d.vertex_stride) & (sk.vs == d.vertex_shader_source && sk.fs == d.fragment_shader_source) & (sk.space == 1 && sk.alpha == kPremul_SkAlphaType);
}
static D Data(int na, int nv, int nu, const int* ta, const int* tv, const int* tu) {
  D d{.attributes = SmallArray<D::Attribute, D::kMaxAttributes>(na), .vertex_stride = __vp_range("stride", 1, 1024), .varyings = SmallArray<D::Varying, D::kMaxVaryings>(nv), .uniforms = SmallArray<D::Uniform, D::kMaxUniforms>(nu), .vertex_shader_source = "vertex program", .fragment_shader_source = "fragment"}; static const char* on[8] = {"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7"};
  for (int i = 0; i < na; ++i) d.attributes[i] = {at[i < 3 ? ta[i] : i % 3], __vp_range(on[i], 0, 1024), an[i]}; for (int i = 0; i < nv; ++i) d.varyings[i] = {(i < 3 ? tv[i] : i & 1) ? D::VaryingType::kFloat4 : D::VaryingType::kFloat2, an[7 - i]}; for (int i = 0; i < nu; ++i) d.uniforms[i] = {(i < 3 ? tu[i] : i == 5) ? D::UniformType::kInt : D::UniformType::kFloat4, kU[i], std::nullopt}; return d;
}
static bool IsInt(const D& d, int i) { return d.uniforms[i].type == D::UniformType::kInt; }
VP_ENTRY(r05_create_inputs) {
  int na = C("na", 0, 8), nv = C("nv", 0, 6), ta[3] = {0, 1, 2}, tv[3] = {0, 1, 0}, tu[3] = {0, 0, 1}; static const char* tn[3] = {"t0", "t1", "t2"}; static const char* vn[3] = {"v0", "v1", "v2"}; for (int i = 0; i < 3; ++i) { if (i < na && na < 5 && nv == 2) ta[i] = C(tn[i], 0, 2); if (i < nv && na == 2) tv[i] = C(vn[i], 0, 1); } D d = Data(na, nv, 3, ta, tv, tu); for (int i = 0; i < 3; ++i) sk.gives.push_back(Uni(i, IsInt(d, i)));
  sk.refuse = C("refuse", 0, 1); auto r = CreateMeshSpecification(d); __vp_assert(sk.made == 1 && Same(d), "Skia is given what the data lists"); __vp_assert(r.ok() == !sk.refuse, "an error exactly when Skia refuses"); if (r.ok()) __vp_assert(*r != nullptr, "a specification"); else __vp_assert(r.status().code() == absl::StatusCode::kInvalidArgument, "an invalid argument"); __vp_reach("end");
}
VP_ENTRY(r05_create_uniforms) {
  int nu = C("nu", 0, 6), ta[3] = {}, tv[3] = {}, tu[3] = {}; static const char* tn[3] = {"t0", "t1", "t2"}; for (int i = 0; i < 3 && i < nu; ++i) tu[i] = C(tn[i], 0, 1); D d = Data(1, 1, nu, ta, tv, tu); for (int i = 0; i < nu; ++i) sk.gives.push_back(Uni(i, IsInt(d, i))); int how = C("how", 0, 5); bool want = how < 2; auto& g = sk.gives;
  if (how == 1) for (int i = 0; i < nu / 2; ++i) std::swap(g[i], g[nu - 1 - i]); // another order is fine
  if (how == 2) g.push_back({"uExtra", S::Uniform::Type::kFloat4, 200}); // one more than expected
  if (how >= 3 && nu == 0) return; int k = how >= 3 ? C("k", 0, nu - 1) : 0;
  if (how == 3) g.erase(g.begin() + k); if (how == 4) { int t = C("type", 0, 10); want = (S::Uniform::Type)t == g[k].type; g[k].type = (S::Uniform::Type)t; } if (how == 5) g[k].name = "uBrushColour";
  auto r = CreateMeshSpecification(d); __vp_assert(r.ok() == want, "exactly the expected uniforms, each with its type"); if (!r.ok()) __vp_assert(r.status().code() == absl::StatusCode::kInvalidArgument, "an invalid argument"); else __vp_assert(*r != nullptr && (*r)->list.size() == (size_t)nu, "the specification Skia made"); __vp_reach("end");
}
static MutableMesh Tri(const MeshFormat& f, bool full) { MutableMesh m(f); m.AppendVertex({0, 0}); m.AppendVertex({1, 0}); m.AppendVertex({0, 1}); if (full) m.AppendTriangleIndices({0, 1, 2}); return m; }
static MeshFormat Form(bool loose, bool hsl) { std::vector<std::pair<T, Id>> l = {{T::kFloat2PackedIn1Float, Id::kPosition}, {T::kFloat1Unpacked, Id::kOpacityShift}}; if (hsl) l.push_back({T::kFloat3Unpacked, Id::kColorShiftHsl}); if (loose) { l.push_back({T::kFloat2Unpacked, Id::kSideDerivative}); l.push_back({T::kFloat1Unpacked, Id::kSideLabel}); l.push_back({T::kFloat2Unpacked, Id::kForwardDerivative}); l.push_back({T::kFloat1Unpacked, Id::kForwardLabel}); } return *MeshFormat::Create(l, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked); }
static void History(int steps) {
  MeshFormat fa = Form(true, true), fb = Form(true, false), fu = Form(false, true); MutableMesh a = Tri(fa, true), a2 = Tri(fa, true), b = Tri(fb, true), u = Tri(fu, true), none = Tri(fb, false); std::vector<PM::MutableMeshGroup> g0 = {{&a, {}, {}, {}}}, g1 = {{&b, {}, {}, {}}, {&a2, {}, {}, {}}, {&none, {}, {}, {}}, {&u, {}, {}, {}}}; std::vector<PM::MutableMeshGroup> g2 = {{&none, {}, {}, {}}, {&a2, {}, {}, {}}}; auto s0 = PM::FromMutableMeshGroups(g0), s1 = PM::FromMutableMeshGroups(g1), s2 = PM::FromMutableMeshGroups(g2); if (!s0.ok() || !s1.ok() || !s2.ok()) { __vp_assert(false, "shapes"); return; } PM nothing;
  InProgressStroke idle, live; live.Start(*Brush::Create(BrushFamily(), Color::Black(), 5, 0.1f)); MeshSpecificationCache cache; static const char* on[4] = {"op0", "op1", "op2", "op3"}; const S* seen[3] = {}; // formats A, B, in progress
  for (int k = 0; k < steps; ++k) {
    int op = C(on[k], 0, 9); int kind = op == 0 || op == 2 || op == 9 ? 0 : op == 1 ? 1 : op == 3 ? 2 : -1; sk.gives.clear(); if (kind == 2) { for (int i : {0, 1, 5}) sk.gives.push_back(Uni(i, i == 5)); } else for (int i = 0; i < 6; ++i) sk.gives.push_back(Uni(i, i == 5)); int before = sk.made;
    absl::StatusOr<sk_sp<S>> r = op == 0 ? cache.GetForStroke(*s0, 0) : op == 1 ? cache.GetForStroke(*s1, 0) : op == 2 ? cache.GetForStroke(*s1, 1) : op == 3 ? cache.GetFor(live) : op == 4 ? cache.GetForStroke(*s1, 2) : op == 5 ? cache.GetForStroke(*s1, 3) : op == 6 ? cache.GetForStroke(*s0, 1) : op == 7 ? cache.GetForStroke(nothing, 0) : op == 9 ? cache.GetForStroke(*s2, 1) : cache.GetFor(idle);
    __vp_assert(r.ok() == (kind >= 0), "a specification exactly for strokes that have one"); if (!r.ok()) { __vp_assert(r.status().code() == absl::StatusCode::kInvalidArgument && sk.made == before, "an invalid argument, nothing made"); continue; } if (kind < 0) continue; const S* p = r->get(); __vp_assert(p != nullptr, "a specification");
    if (seen[kind]) __vp_assert(p == seen[kind] && sk.made == before, "requested again, the same specification"); else { __vp_assert(sk.made == before + 1, "made on the first request"); for (const S* q : seen) __vp_assert(q != p, "its own specification for each format"); D d = kind == 2 ? D::CreateForInProgressStroke() : *D::CreateForStroke(kind ? fb : fa); __vp_assert(Same(d), "made from the format's data"); seen[kind] = p; }
  }
  __vp_reach("end");
}
VP_ENTRY(r05_history) { History(4); }
