// SRC: ink/strokes/internal/brush_tip_modeler_helpers.cc ink/strokes/internal/brush_tip_state.cc ink/strokes/internal/easing_implementation.cc ink/brush/easing_function.cc ink/brush/brush_behavior.cc ink/brush/brush_tip.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/envelope.cc ink/types/duration.cc ink/types/physical_distance.cc
// OPT: budget=120
// BOUND: every target, stacked up to three times with any finite modifiers, on every valid brush tip whose sizes do not overflow when doubled
// BOUND: exact stacking for all 16x16 target pairs, one modifier on a quarter grid in [-2,2), the other in {-1,0,1/2,1,3/2}
// ASSUME: twice the base tip size is finite
#include "tip_ref.h"
#include "ink/brush/brush_tip.h"
typedef BB::Target T;
static const float kMax = 3.4028235e38f, kPi = 3.14159265f;
static BrushTip AnyTip() { static const float kW[] = {1, 0, 3.7f, 1e-20f, 1e19f}, kH[] = {0, 1, 0.3f, 1e19f, 1e-20f}; int k = __vp_concretize(__vp_range("scale", 0, 4)); BrushTip t; t.scale = {kW[k], kH[k]}; t.corner_rounding = __vp_f32_range("round", 0, 1); t.slant = Angle::Radians(__vp_f32_range("slant", -kQuarterTurn.ValueInRadians(), kQuarterTurn.ValueInRadians())); t.pinch = __vp_f32_range("pinch", 0, 1); t.rotation = Angle::Radians(__vp_f32_range("rotation", -kMax, kMax)); t.opacity_multiplier = __vp_f32_range("opacity", 0, 2); return t; }
static void CheckRanges(const BrushTipState& s, const BrushTip& t, float size) {
  float w = size * t.scale.x, h = size * t.scale.y;
  __vp_assert((s.width >= 0) & (s.width <= 2 * w), "width in [0, 2*base]"); __vp_assert((s.height >= 0) & (s.height <= 2 * h), "height in [0, 2*base]");
  __vp_assert((s.percent_radius >= 0) & (s.percent_radius <= 1), "corner rounding in [0,1]"); __vp_assert((s.pinch >= 0) & (s.pinch <= 1), "pinch in [0,1]"); __vp_assert((s.slant >= -kQuarterTurn) & (s.slant <= kQuarterTurn), "slant in [-pi/2,pi/2]");
  __vp_assert((s.saturation_multiplier >= 0) & (s.saturation_multiplier <= 2), "saturation in [0,2]"); __vp_assert((s.luminosity_shift >= -1) & (s.luminosity_shift <= 1), "luminosity in [-1,1]"); __vp_assert((s.opacity_multiplier >= 0) & (s.opacity_multiplier <= 2), "opacity in [0,2]");
  __vp_assert((s.hue_offset_in_full_turns >= 0) & (s.hue_offset_in_full_turns < 1), "hue in [0,1)"); __vp_assert(Fin(s.rotation.ValueInRadians()), "rotation finite");
}
static void Ranges(int lo, int hi) {
  int t = __vp_concretize(__vp_range("target", lo, hi)); BrushTip tip = AnyTip(); static const float kSize[] = {1, 7.3f, 1e-20f, 1e19f}; float size = kSize[tip.scale.x == 1 ? 0 : tip.scale.x == 0 ? 1 : tip.scale.x > 1e18f ? 2 : tip.scale.x < 1 ? 3 : 1]; T targets[3] = {(T)t, (T)t, (T)t}; float m[3] = {__vp_f32_range("m0", -kMax, kMax), __vp_f32_range("m1", -kMax, kMax), __vp_f32_range("m2", -kMax, kMax)}; std::optional<Angle> dir; int n = __vp_concretize(__vp_range("n", 0, 3));
  BrushTipState s = CreateTipState({0, 0}, dir, tip, size, absl::MakeConstSpan(targets, n), absl::MakeConstSpan(m, n)); CheckRanges(s, tip, size);
  if (t == (int)T::kRotationOffsetInRadians && n > 0) { float r = s.rotation.ValueInRadians(); __vp_assert((m[0] == 0) | (m[0] + m[1] + m[2] == 0) | (n > 1) | ((r >= 0) & (r < 6.2831855f)), "rotation normalized once offset"); } __vp_reach("end");
}
VP_ENTRY(k01_width) { Ranges(0, 0); }
VP_ENTRY(k01_height) { Ranges(1, 1); }
VP_ENTRY(k01_size) { Ranges(2, 2); }
VP_ENTRY(k01_slant) { Ranges(3, 3); }
VP_ENTRY(k01_pinch) { Ranges(4, 4); }
VP_ENTRY(k01_rotation) { Ranges(5, 5); }
VP_ENTRY(k01_rounding) { Ranges(6, 6); }
VP_ENTRY(k01_position) { Ranges(7, 10); }
VP_ENTRY(k01_hue) { Ranges(11, 11); }
VP_ENTRY(k01_saturation) { Ranges(12, 12); }
VP_ENTRY(k01_luminosity) { Ranges(13, 13); }
VP_ENTRY(k01_opacity) { Ranges(14, 14); }
static float Clamp(float x, float lo, float hi) { return x < lo ? lo : x > hi ? hi : x; }
static bool Near(float x, float y) { return (x - y < 1e-4f) & (y - x < 1e-4f); }
VP_ENTRY(k01_exact) { // how two targets stack, on a concrete tip
  static const float kB[] = {-1, 0, 0.5f, 1, 1.5f}; int t[2] = {__vp_concretize(__vp_range("t0", 0, 14)), __vp_concretize(__vp_range("t1", 0, 14))}; float m[2] = {vp::grid("a", -8, 7, 2), kB[__vp_concretize(__vp_range("b", 0, 4))]}; bool has_dir = __vp_concretize(__vp_range("dir", 0, 1)); std::optional<Angle> dir; if (has_dir) dir = kQuarterTurn; T targets[2] = {(T)t[0], (T)t[1]};
  BrushTip tip; tip.scale = {2, 0.5f}; tip.corner_rounding = 0.5f; tip.slant = Angle::Radians(0.5f); tip.pinch = 0.25f; tip.rotation = Angle::Radians(1); tip.opacity_multiplier = 0.5f;
  BrushTipState s = CreateTipState({3, 4}, dir, tip, 4, targets, m);
  float w = 1, h = 1, slant = 0, pinch = 0, rot = 0, round = 0, x = 3, y = 4, hue = 0, sat = 1, lum = 0, op = 1;
  for (int i = 0; i < 2; ++i) { float v = m[i]; switch ((T)t[i]) { case T::kWidthMultiplier: w *= v; break; case T::kHeightMultiplier: h *= v; break; case T::kSizeMultiplier: w *= v; h *= v; break; case T::kSlantOffsetInRadians: slant += v; break; case T::kPinchOffset: pinch += v; break; case T::kRotationOffsetInRadians: rot += v; break; case T::kCornerRoundingOffset: round += v; break; case T::kPositionOffsetXInMultiplesOfBrushSize: x += 4 * v; break; case T::kPositionOffsetYInMultiplesOfBrushSize: y += 4 * v; break; case T::kPositionOffsetForwardInMultiplesOfBrushSize: if (has_dir) y += 4 * v; break; case T::kPositionOffsetLateralInMultiplesOfBrushSize: if (has_dir) x -= 4 * v; break; case T::kHueOffsetInRadians: hue += v; break; case T::kSaturationMultiplier: sat *= v; break; case T::kLuminosity: lum += v; break; case T::kOpacityMultiplier: op *= v; break; } }
  __vp_assert(s.width == 8 * Clamp(w, 0, 2), "width multipliers stack by product"); __vp_assert(s.height == 2 * Clamp(h, 0, 2), "height multipliers stack by product"); __vp_assert(s.slant.ValueInRadians() == Clamp(0.5f + slant, -kQuarterTurn.ValueInRadians(), kQuarterTurn.ValueInRadians()), "slant offsets add"); __vp_assert(s.pinch == Clamp(0.25f + pinch, 0, 1), "pinch offsets add"); __vp_assert(s.percent_radius == Clamp(0.5f + round, 0, 1), "corner rounding offsets add"); __vp_assert(Near(s.position.x, x) & Near(s.position.y, y), "position offsets add");
  float r = 1 + rot; if (r < 0) r += 2 * kPi; __vp_assert(Near(s.rotation.ValueInRadians(), r), "rotation offsets add"); float hu = hue; if (hu < 0) hu += 2 * kPi; __vp_assert(Near(s.hue_offset_in_full_turns, hu / (2 * kPi)), "hue offsets add"); __vp_assert(s.saturation_multiplier == Clamp(sat, 0, 2), "saturation multipliers stack"); __vp_assert(s.luminosity_shift == Clamp(lum, -1, 1), "luminosity shifts add"); __vp_assert(s.opacity_multiplier == Clamp(0.5f * op, 0, 2), "opacity multipliers stack"); __vp_reach("end");
}
VP_ENTRY(k01_lerp_shape) { // interpolated tip states stay between their ends
  auto st = [](const char* a, const char* b, const char* c, const char* d, const char* e) { BrushTipState s; s.position = {2, 1}; s.width = __vp_f32_range(a, 0, 1e19f); s.height = __vp_f32_range(b, 0, 1e19f); s.percent_radius = __vp_f32_range(c, 0, 1); s.slant = Angle::Radians(__vp_f32_range(d, -1.5707f, 1.5707f)); s.pinch = __vp_f32_range(e, 0, 1); s.rotation = Angle::Radians(1); return s; };
  BrushTipState a = st("aw", "ah", "ar", "as", "ap"), b = st("bw", "bh", "br", "bs", "bp"); b.hue_offset_in_full_turns = 0.25f; b.saturation_multiplier = 2; b.luminosity_shift = 0.5f; b.opacity_multiplier = 1.5f; float t = 0.125f * __vp_concretize(__vp_range("t", 0, 8)); BrushTipState s = BrushTipState::LerpShapeAttributes(a, b, t);
  auto ab = [](float x) { return x < 0 ? -x : x; }; auto in = [&](float v, float p, float q) { float lo = p < q ? p : q, hi = p < q ? q : p, m = ab(lo) > ab(hi) ? ab(lo) : ab(hi), tol = 1e-5f * m + 1e-37f; return (v >= lo - tol) & (v <= hi + tol); };
  __vp_assert(in(s.width, a.width, b.width), "width between"); __vp_assert(in(s.height, a.height, b.height), "height between"); __vp_assert(in(s.percent_radius, a.percent_radius, b.percent_radius), "rounding between"); __vp_assert(in(s.pinch, a.pinch, b.pinch), "pinch between"); __vp_assert(in(s.slant.ValueInRadians(), a.slant.ValueInRadians(), b.slant.ValueInRadians()), "slant between");
  if (t == 0) __vp_assert((s.width == a.width) & (s.height == a.height) & (s.percent_radius == a.percent_radius), "starts at a");  __vp_assert((s.position == b.position) & (s.hue_offset_in_full_turns == 0.25f) & (s.saturation_multiplier == 2) & (s.luminosity_shift == 0.5f) & (s.opacity_multiplier == 1.5f), "other fields come from b"); __vp_reach("end");
}
VP_ENTRY(k01_lerp_rotation) { int a = __vp_concretize(__vp_range("a", 0, 7)), b = __vp_concretize(__vp_range("b", 0, 7)); float t = 0.25f * __vp_concretize(__vp_range("t", 0, 4)); BrushTipState p{.rotation = Angle::Radians(a * 0.78539816f)}, q{.rotation = Angle::Radians(b * 0.78539816f)}; int d = ((b - a + 12) & 7) - 4; float r = BrushTipState::LerpShapeAttributes(p, q, t).rotation.ValueInRadians(); float w = (a + t * d) * 0.78539816f, w2 = (a - t * d) * 0.78539816f; auto turn = [](float x, float y) { float z = x - y; return Near(z, 0) | Near(z, 2 * kPi) | Near(z, -2 * kPi) | Near(z, 4 * kPi); }; __vp_assert(turn(r, w) | ((d == -4) & turn(r, w2)), "shortest way round"); __vp_reach("end"); }
