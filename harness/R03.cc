// SRC: ink/rendering/skia/native/internal/mesh_uniform_data.cc ink/rendering/skia/common_internal/mesh_specification_data.cc
// SRC: ink/color/color.cc ink/color/color_space.cc ink/geometry/affine_transform.cc ink/geometry/mesh_format.cc ink/geometry/quad.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/internal/algorithms.cc
// OPT: budget=100
// BOUND: every subset of the six uniforms in two orders, one of them of any wrong type, any coding parameters; histories of 4 operations out of setting the colour, the texture mapping or the transform, taking the data and copying the object, all finite values
// ASSUME: Skia is not available: its reference counted buffers and mesh specifications are replaced by stand-ins with the same documented meaning
#include <cmath>
#include <cstring>
#include <vector>

#include "ink/rendering/skia/native/internal/mesh_uniform_data.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "vp.h"
using namespace ink; using skia_native_internal::MeshUniformData; using D = skia_common_internal::MeshSpecificationData; typedef D::UniformId U; typedef SkMeshSpecification::Uniform::Type UT; typedef MeshFormat::AttributeType T; typedef MeshFormat::AttributeId Id;
static const U kU[6] = {U::kObjectToCanvasLinearComponent, U::kBrushColor, U::kPositionUnpackingTransform, U::kSideDerivativeUnpackingTransform, U::kForwardDerivativeUnpackingTransform, U::kTextureMapping};
struct Spec { SkMeshSpecification s; int at[6]; };
// The uniforms of `mask`, laid out one after the other; the one called `odd` has the type `type` instead of its own.
static Spec Make(unsigned mask, bool reverse, int odd = -1, int type = 0) { Spec r; for (int& a : r.at) a = -1; size_t n = 0; for (int j = 0; j < 6; ++j) { int k = reverse ? 5 - j : j; if (!(mask >> k & 1)) continue; UT own = k == 5 ? UT::kInt : UT::kFloat4, t = k == odd ? (UT)type : own; r.s.list.push_back({D::GetUniformName(kU[k]), t, n}); if (t == own) r.at[k] = n; n += 16; } r.s.size = n; return r; }
static float F(const SkData& d, int at, int i) { float f; std::memcpy(&f, d.bytes() + at + 4 * i, 4); return f; }
static MeshAttributeCodingParams kParams[5];
static std::vector<MeshFormat::Attribute> Attributes(bool reverse) { MeshFormat f = reverse ? *MeshFormat::Create({{T::kFloat2PackedIn1Float, Id::kForwardDerivative}, {T::kFloat1Unpacked, Id::kCustom0}, {T::kFloat2PackedIn1Float, Id::kPosition}, {T::kFloat2PackedIn1Float, Id::kSideDerivative}}, MeshFormat::IndexFormat::k16BitUnpacked16BitPacked) : *MeshFormat::Create({{T::kFloat2PackedIn1Float, Id::kPosition}, {T::kFloat2PackedIn1Float, Id::kSideDerivative}, {T::kFloat1Unpacked, Id::kOpacityShift}, {T::kFloat2PackedIn1Float, Id::kForwardDerivative}}, MeshFormat::IndexFormat::k16BitUnpacked16BitPacked); auto a = f.Attributes(); return {a.begin(), a.end()}; }
static void Construct(unsigned mask, bool reverse, int odd, int type) {
  Spec s = Make(mask, reverse, odd, type); auto as = Attributes(reverse); static const char* n[3][4] = {{"p0", "p1", "p2", "p3"}, {"s0", "s1", "s2", "s3"}, {"f0", "f1", "f2", "f3"}}; float v[3][4]; for (auto& q : v) for (int i = 0; i < 4; ++i) { q[i] = __vp_f32(n[&q - v][i]); __vp_assume(q[i] == q[i]); }
  int asked = 0; for (size_t i = 0; i < as.size(); ++i) { int g = as[i].id == Id::kPosition ? 0 : as[i].id == Id::kSideDerivative ? 1 : as[i].id == Id::kForwardDerivative ? 2 : -1; if (g < 0) { kParams[i].components = SmallArray<MeshAttributeCodingParams::ComponentCodingParams, 4>(1); continue; } kParams[i].components = SmallArray<MeshAttributeCodingParams::ComponentCodingParams, 4>(2); kParams[i].components[0] = {.offset = v[g][0], .scale = v[g][1]}; kParams[i].components[1] = {.offset = v[g][2], .scale = v[g][3]}; }
  auto get = [&](int i) -> const MeshAttributeCodingParams& { ++asked; return kParams[i]; }; MeshUniformData m(s.s, as, get);
  __vp_assert(m.HasObjectToCanvasLinearComponent() == (s.at[0] >= 0) && m.HasBrushColor() == (s.at[1] >= 0) && m.HasTextureMapping() == (s.at[5] >= 0), "a uniform is there exactly when it is listed with its type");
  auto d = m.Get(); __vp_assert((d == nullptr) == (s.s.size == 0), "no data without uniforms"); if (d == nullptr) { __vp_reach("empty"); return; } __vp_assert(d->size() == s.s.size, "room for every uniform"); bool ok = true, rest = true; for (int k = 0; k < 6; ++k) { if (s.at[k] < 0) continue; if (k >= 2 && k < 5) for (int i = 0; i < 4; ++i) ok = ok & (F(*d, s.at[k], i) == v[k - 2][i]); else for (int i = 0; i < 16; ++i) rest = rest & (d->bytes()[s.at[k] + i] == 0xEE); } __vp_assert(ok, "unpacking transforms lie at their offsets"); __vp_assert(rest, "other uniforms are not touched"); __vp_reach("made");
}
VP_ENTRY(r03_construct) { Construct(__vp_concretize(__vp_range("mask", 0, 63)), __vp_concretize(__vp_range("reverse", 0, 1)), -1, 0); }
VP_ENTRY(r03_wrong_type) { int k = __vp_concretize(__vp_range("k", 0, 5)); Construct(63, false, k, __vp_concretize(__vp_range("type", 0, 10))); }
static const char* on[5] = {"o0", "o1", "o2", "o3", "o4"}; static const char* xn[5][4] = {{"a0", "a1", "a2", "a3"}, {"b0", "b1", "b2", "b3"}, {"c0", "c1", "c2", "c3"}, {"d0", "d1", "d2", "d3"}, {"e0", "e1", "e2", "e3"}};
static void History(unsigned mask, int steps, ColorSpace space) {
  Spec s = Make(mask, true); MeshUniformData a(s.s), b; struct Model { float t[4], c[4]; int m; bool ht = false, hc = false, hm = false; } ma, mb, mt; sk_sp<const SkData> taken; bool have_b = false;
  auto same = [&](const SkData& d, const Model& m) { bool ok = true; for (int i = 0; i < 4; ++i) { if (m.ht) ok = ok & (F(d, s.at[0], i) == m.t[i]); if (m.hc) ok = ok & (F(d, s.at[1], i) == m.c[i]); } if (m.hm) { int x; std::memcpy(&x, d.bytes() + s.at[5], 4); ok = ok & (x == m.m); } return ok; };
  for (int k = 0; k < steps; ++k) { int op = __vp_concretize(__vp_range(on[k], 0, 4)); float v[4]; if (op == 0 || op == 1) for (int i = 0; i < 4; ++i) v[i] = __vp_f32_range(xn[k][i], 0, 1);
    switch (op) {
      case 0: a.SetObjectToCanvasLinearComponent(AffineTransform(v[0], v[1], 5, v[2], v[3], 6)); ma.ht = true; ma.t[0] = v[0]; ma.t[1] = v[2]; ma.t[2] = v[1]; ma.t[3] = v[3]; break;
      case 1: { Color c = Color::FromFloat(v[0], v[1], v[2], v[3], Color::Format::kLinear, space); a.SetBrushColor(c); auto l = c.InColorSpace(ColorSpace::kSrgb).AsFloat(Color::Format::kLinear); ma.hc = true; ma.c[0] = l.r; ma.c[1] = l.g; ma.c[2] = l.b; ma.c[3] = l.a; break; }
      case 2: { int x = __vp_range(xn[k][0], 0, 1); a.SetTextureMapping((BrushPaint::TextureMapping)x); ma.hm = true; ma.m = x; break; }
      case 3: taken = a.Get(); mt = ma; break;
      default: b = a; mb = ma; have_b = true; break;
    } }
  __vp_assert(same(*a.Get(), ma), "uniforms hold what was set last"); if (taken) __vp_assert(same(*taken, mt), "data that was handed out never changes"); if (have_b) __vp_assert(same(*b.Get(), mb), "copies keep their own values"); __vp_reach("end");
}
VP_ENTRY(r03_history) { History(63, 4, ColorSpace::kSrgb); }
VP_ENTRY(r03_history_p3) { History(35, 2, ColorSpace::kDisplayP3); }
VP_ENTRY_T(r03_history_5) { History(35, 5, ColorSpace::kSrgb); }
VP_ENTRY(r03_missing) { int op = __vp_concretize(__vp_range("op", 0, 2)); bool has = __vp_concretize(__vp_range("has", 0, 1)); unsigned bit = op == 0 ? 1 : op == 1 ? 2 : 32; Spec s = Make(has ? 63 : 63 & ~bit, false); MeshUniformData m(s.s); if (!has) __vp_expect_check_fail(); if (op == 0) m.SetObjectToCanvasLinearComponent(AffineTransform::Identity()); else if (op == 1) m.SetBrushColor(Color::Red()); else m.SetTextureMapping(BrushPaint::TextureMapping::kWinding); __vp_assert(has, "setting a uniform that is not there is detected"); __vp_reach("end"); }
VP_ENTRY(r03_default) { MeshUniformData m; __vp_assert(m.Get() == nullptr && !m.HasBrushColor() && !m.HasTextureMapping() && !m.HasObjectToCanvasLinearComponent(), "nothing in default-constructed data"); Spec s = Make(0, false); MeshUniformData e(s.s); __vp_assert(e.Get() == nullptr, "nothing without uniforms"); __vp_reach("end"); }
