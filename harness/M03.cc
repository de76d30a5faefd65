// SRC: ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc
// OPT: budget=120
// BOUND: every finite lower and upper bound of a component for the sign and size of the parameters
// BOUND: code range: all finite bounds and every value between them, for 6, 8, 12 and 20 bit components
// BOUND: parameter arrays: 3 attributes with arbitrary custom parameters for one of them
// ASSUME: error texts are not modelled
#include <cmath>
#include <optional>
#include <vector>

#include "ink/geometry/internal/mesh_packing.h"
#include "vp.h"
using namespace ink; using namespace ink::mesh_internal; typedef MeshFormat::AttributeType T; typedef MeshFormat::AttributeId Id;
static const int kT[10] = {1, 3, 4, 5, 7, 8, 9, 11, 12, 13}; static const int kN[14] = {1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4}; static const int kBits[14] = {0, 8, 0, 12, 12, 20, 0, 8, 16, 10, 0, 6, 12, 18};
static absl::StatusOr<MeshAttributeCodingParams> Compute(int t, int k, float lo, float hi) { MeshAttributeBounds b{.minimum = SmallArray<float, 4>(kN[t], -1.f), .maximum = SmallArray<float, 4>(kN[t], 2.f)}; b.minimum[k] = lo; b.maximum[k] = hi; return ComputeCodingParams((T)t, b); }
static float Finite(const char* n) { float v = __vp_f32(n); __vp_assume(v - v == 0); return v; }
VP_ENTRY(m03_params) {
  int t = kT[__vp_concretize(__vp_range("t", 0, 9))], k = kN[t] - 1; float lo = Finite("lo"), hi = Finite("hi"); __vp_assume(lo <= hi); auto p = Compute(t, k, lo, hi); bool rep = std::isfinite(hi - lo);
  __vp_assert(p.ok() == rep, "an error exactly when the range overflows"); if (!p.ok()) { __vp_reach("overflow"); return; }
  __vp_assert(p->components.Size() == kN[t], "one entry per component"); float s = p->components[k].scale; __vp_assert(s > 0 && std::isfinite(s), "scale is positive and finite"); __vp_assert(p->components[k].offset == lo, "offset is the lower bound"); __vp_assert(hi > lo || s == 1, "unit scale for a constant"); __vp_reach("end");
}
VP_ENTRY(m03_unpacked) { static const int u[4] = {0, 2, 6, 10}; int t = u[__vp_concretize(__vp_range("t", 0, 3))]; auto p = Compute(t, 0, Finite("lo"), Finite("hi")); __vp_assert(p.ok() && p->components.Size() == kN[t], "always succeeds"); for (int i = 0; i < kN[t]; i++) __vp_assert(p->components[i].offset == 0 && p->components[i].scale == 1, "identity"); __vp_reach("end"); }
static void Code(int t, float lo, float hi, float v) {  // the code of any value of the range fits, and the ends get the end codes
  int k = kN[t] - 1; uint32_t m = (1u << kBits[t]) - 1; __vp_assume(lo <= v); __vp_assume(v <= hi); auto p = Compute(t, k, lo, hi); if (!p.ok()) return; auto c = p->components[k];
  float q = (v - c.offset) / c.scale; __vp_assert(q >= 0 && q < (float)m + 0.5f, "code is within its bits"); __vp_assert((lo - c.offset) / c.scale == 0, "lower bound gets code 0"); __vp_reach("end");
}
VP_ENTRY(m03_code_6) { Code(11, Finite("lo"), Finite("hi"), Finite("v")); }
VP_ENTRY(m03_code_8) { Code(1, Finite("lo"), Finite("hi"), Finite("v")); }
VP_ENTRY(m03_code_12) { Code(4, Finite("lo"), Finite("hi"), Finite("v")); }
VP_ENTRY(m03_code_20) { Code(5, Finite("lo"), Finite("hi"), Finite("v")); }
VP_ENTRY(m03_tiny_8) { Code(1, __vp_f32_range("lo", -1e-36f, 1e-36f), __vp_f32_range("hi", -1e-36f, 1e-36f), __vp_f32("v")); }
VP_ENTRY(m03_tiny_20) { Code(5, __vp_f32_range("lo", -1e-33f, 1e-33f), __vp_f32_range("hi", -1e-33f, 1e-33f), __vp_f32("v")); }
VP_ENTRY(m03_array) {
  std::vector<std::pair<T, Id>> at{{T::kFloat2PackedIn3UnsignedBytes_XY12, Id::kPosition}, {T::kFloat1Unpacked, Id::kOpacityShift}, {T::kFloat1PackedIn1UnsignedByte, Id::kCustom0}}; auto f = *MeshFormat::Create(at, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked);
  float lo = vp::grid("lo", -16, 15, 2), hi = vp::grid("hi", -16, 15, 2); __vp_assume(lo <= hi); AttributeBoundsArray b(3); int n[3] = {2, 1, 1}; for (int i = 0; i < 3; i++) b[i] = {.minimum = SmallArray<float, 4>(n[i], 0.f), .maximum = SmallArray<float, 4>(n[i], 1.f)}; b[2].minimum[0] = lo; b[2].maximum[0] = hi;
  int which = __vp_concretize(__vp_range("which", 0, 6)); std::vector<std::optional<MeshAttributeCodingParams>> cu(which == 5 ? 2 : 3); MeshAttributeCodingParams c{.components = SmallArray<MeshAttributeCodingParams::ComponentCodingParams, 4>(which == 4 ? 2 : 1, {.offset = __vp_f32("off"), .scale = __vp_f32("sc")})};
  if (which == 1) cu[1] = c; if (which == 2 || which == 4) cu[2] = c; if (which == 6) b.Resize(2);
  auto r = which == 0 ? ComputeCodingParamsArray(f, b) : ComputeCodingParamsArray(f, b, cu); bool ok = r.ok();
  if (which == 1 || which >= 4) { __vp_assert(!ok, "unpacked type, wrong component count or wrong number of parameters"); __vp_reach("error"); return; }
  if (which == 2) {
    auto k = c.components[0]; bool fin = std::isfinite(k.offset) && std::isfinite(k.scale) && k.scale > 0; if (!fin) { __vp_assert(!ok, "invalid custom parameters"); __vp_reach("invalid"); return; }
    float a = std::round((lo - k.offset) / k.scale), z = std::round((hi - k.offset) / k.scale); bool rep = (a >= 0) & (z <= 255); __vp_assert(ok == rep, "accepted exactly when both bounds are representable"); if (ok) __vp_assert((*r)[2].components[0].offset == k.offset && (*r)[2].components[0].scale == k.scale, "custom parameters are used"); __vp_reach("custom");
  } else { __vp_assert(ok, "computed"); auto w = *Compute(1, 0, lo, hi); __vp_assert((*r)[2].components[0].offset == w.components[0].offset && (*r)[2].components[0].scale == w.components[0].scale, "computed from the bounds"); __vp_reach("computed"); }
  if (ok) __vp_assert(r->Size() == 3 && (*r)[0].components.Size() == 2 && (*r)[1].components[0].scale == 1 && (*r)[1].components[0].offset == 0, "other attributes");
}
