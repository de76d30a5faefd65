// SRC: ink/brush/brush_tip.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/types/duration.cc
// OPT: budget=60
// BOUND: every float value of all eleven numeric parameters at once; 0 to 2 behaviours of one constant and one target node with any parameters
// ASSUME: error texts are not modelled
#include "ink/brush/brush_tip.h"
#include "vp.h"
using namespace ink;
static bool Fin(float x) { return (x - x) == 0; }
static bool Ok(const BrushTip& t) { auto s = brush_internal::ValidateBrushTip(t); if (!s.ok()) __vp_assert(s.code() == absl::StatusCode::kInvalidArgument, "invalid argument"); return s.ok(); }
static BrushTip Tip() { BrushTip t; t.scale = {__vp_f32("sx"), __vp_f32("sy")}; t.corner_rounding = __vp_f32("cr"); t.slant = Angle::Radians(__vp_f32("sl")); t.pinch = __vp_f32("pi"); t.rotation = Angle::Radians(__vp_f32("ro")); t.opacity_multiplier = __vp_f32("op"); t.particle_gap_distance_scale = __vp_f32("gd"); t.particle_gap_duration = Duration32::Seconds(__vp_f32("gt")); return t; }
static bool Want(const BrushTip& t) {
  float sl = t.slant.ValueInRadians(), q = kQuarterTurn.ValueInRadians(), gt = t.particle_gap_duration.ToSeconds();
  return Fin(t.scale.x) & Fin(t.scale.y) & (t.scale.x >= 0) & (t.scale.y >= 0) & ((t.scale.x > 0) | (t.scale.y > 0)) & (t.corner_rounding >= 0) & (t.corner_rounding <= 1) & (sl >= -q) & (sl <= q) & (t.pinch >= 0) & (t.pinch <= 1) & Fin(t.rotation.ValueInRadians()) & (t.opacity_multiplier >= 0) & (t.opacity_multiplier <= 2) & Fin(t.particle_gap_distance_scale) & (t.particle_gap_distance_scale >= 0) & Fin(gt) & (gt >= 0);
}
VP_ENTRY(b03_parameters) { BrushTip t = Tip(); __vp_assert(Ok(t) == Want(t), "parameters in range"); __vp_reach("end"); }
VP_ENTRY(b03_default) { BrushTip t; __vp_assert(Ok(t), "the default tip is valid"); __vp_assert(t == BrushTip{}, "equal to itself"); __vp_reach("end"); }
VP_ENTRY(b03_behaviors) {
  static const char* a[] = {"a0", "a1"}; static const char* c[] = {"c0", "c1"}; static const char* e[] = {"e0", "e1"};
  BrushTip t; int n = __vp_concretize(__vp_range("n", 0, 2)); bool want = true; for (int i = 0; i < n; i++) { float v = __vp_f32(a[i]), lo = __vp_f32(c[i]), hi = __vp_f32(e[i]); t.behaviors.push_back({.nodes = {BrushBehavior::ConstantNode{v}, BrushBehavior::TargetNode{BrushBehavior::Target::kPinchOffset, {lo, hi}}}}); want = want & Fin(v) & Fin(lo) & Fin(hi) & (lo != hi); }
  if (__vp_bool("bad")) { t.pinch = 2; want = false; } __vp_assert(Ok(t) == want, "all behaviours valid"); __vp_reach("end");
}
VP_ENTRY(b03_equality) {
  BrushTip t = Tip(), u = t; __vp_assume(Want(t)); int k = __vp_concretize(__vp_range("k", 0, 8)); float v = __vp_f32("v"); float o;
  switch (k) { case 0: o = t.scale.x; u.scale.x = v; break; case 1: o = t.scale.y; u.scale.y = v; break; case 2: o = t.corner_rounding; u.corner_rounding = v; break; case 3: o = t.slant.ValueInRadians(); u.slant = Angle::Radians(v); break; case 4: o = t.pinch; u.pinch = v; break; case 5: o = t.rotation.ValueInRadians(); u.rotation = Angle::Radians(v); break; case 6: o = t.opacity_multiplier; u.opacity_multiplier = v; break; case 7: o = t.particle_gap_distance_scale; u.particle_gap_distance_scale = v; break; default: o = t.particle_gap_duration.ToSeconds(); u.particle_gap_duration = Duration32::Seconds(v); }
  bool same = o == v; __vp_assert((t == u) == same, "equal exactly when every parameter is"); __vp_assert((t != u) == !same, "inequality"); __vp_reach("end");
}
