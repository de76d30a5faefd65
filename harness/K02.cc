// SRC: ink/strokes/internal/brush_tip_modeler_helpers.cc ink/strokes/internal/easing_implementation.cc ink/brush/easing_function.cc ink/brush/brush_behavior.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/envelope.cc ink/types/duration.cc ink/types/physical_distance.cc
// OPT: budget=120
// BOUND: all 37 sources with every numeric field of the input any finite float (result is null or in [0,1]); source values on a quarter grid in [-32,32] with power-of-two ranges, sizes and unit lengths for the exact value
// BOUND: all node kinds other than sources on any finite or null stack values and any finite parameters
// ASSUME: a modelled input is what the modeler produces from valid inputs: finite numbers, pressure -1 or in [0,1], tilt -1 or in [0,pi/2], orientation -1 or in [0,2pi)
#include "tip_ref.h"
static const int kSources = 37;
static Env Any() {
  Env e; auto f = [](const char* n) { return __vp_f32_range(n, -3e38f, 3e38f); };
  e.in.position = {f("px"), f("py")}; e.in.velocity = {f("vx"), f("vy")}; e.in.acceleration = {f("ax"), f("ay")}; e.in.traveled_distance = __vp_f32_range("d", 0, 3e38f); e.in.elapsed_time = Duration32::Seconds(__vp_f32_range("t", 0, 3e38f));
  if (__vp_bool("has_pressure")) e.in.pressure = __vp_f32_range("pressure", 0, 1); if (__vp_bool("has_tilt")) e.in.tilt = Angle::Radians(__vp_f32_range("tilt", 0, kQuarterTurn.ValueInRadians())); if (__vp_bool("has_orient")) e.in.orientation = Angle::Radians(__vp_f32_range("orient", 0, 6.2831f));
  e.size = __vp_f32_range("size", 1e-38f, 3e38f); if (__vp_bool("has_dir")) e.dir = Angle::Radians(__vp_f32_range("dir", -3.1415f, 3.1415f));
  e.st.complete_elapsed_time = Duration32::Seconds(f("ct")); e.st.complete_traveled_distance = f("cd"); e.st.total_real_elapsed_time = Duration32::Seconds(f("rt")); e.st.total_real_distance = f("rd"); if (__vp_bool("has_unit")) e.st.stroke_unit_length = PhysicalDistance::Centimeters(__vp_f32_range("unit", 1e-38f, 3e38f));
  return e;
}
static void Range(int lo, int hi) { // every source value is null or in [0,1]
  Env e = Any(); int s = __vp_concretize(__vp_range("s", lo, hi)); float a = __vp_f32_range("a", -3e38f, 3e38f), b = __vp_f32_range("b", -3e38f, 3e38f); __vp_assume(a != b); e.Run(BB::SourceNode{(BB::Source)s, BB::OutOfRange::kClamp, {a, b}}); __vp_assert(e.stack.size() == 1, "one value"); float v = e.Top(); __vp_assert(Null(v) | ((v >= 0) & (v <= 1)), "null or in [0,1]"); __vp_reach("end");
}
VP_ENTRY(k02_range_a) { Range(0, 5); }
VP_ENTRY(k02_range_b) { Range(6, 14); }
VP_ENTRY(k02_range_c) { Range(15, 26); }
VP_ENTRY(k02_range_d) { Range(27, 36); }
VP_ENTRY(k02_range_unbounded) { Env e; e.in.traveled_distance = __vp_f32("d"); BB::OutOfRange o = __vp_bool("mirror") ? BB::OutOfRange::kMirror : BB::OutOfRange::kRepeat; e.Run(BB::SourceNode{BB::Source::kDistanceTraveledInMultiplesOfBrushSize, o, {0, 1}}); float v = e.Top(); __vp_assert(Null(v) | ((v >= 0) & (v <= 1)), "repeat and mirror stay in [0,1]"); __vp_assert(!(Fin(e.in.traveled_distance) & Null(v)), "finite values are never null"); __vp_reach("end"); }
// out-of-range handling on a grid, exactly: value v/4 in range [a/4,b/4]
VP_ENTRY(k02_out_of_range) {
  static const int kA[] = {0, 0, 32, -16, 4, -2}, kB[] = {4, 32, 0, 16, 0, 2}; int r = __vp_concretize(__vp_range("r", 0, 5)), o = __vp_concretize(__vp_range("o", 0, 2)), v = __vp_range("v", -128, 127); Env e; e.in.traveled_distance = v * 0.25f; e.Run(BB::SourceNode{BB::Source::kDistanceTraveledInMultiplesOfBrushSize, (BB::OutOfRange)o, {kA[r] * 0.25f, kB[r] * 0.25f}});
  int n = v - kA[r], d = kB[r] - kA[r]; if (d < 0) { n = -n; d = -d; } int m; if (o == 0) m = n < 0 ? 0 : n > d ? d : n; else if (o == 1) m = n & (d - 1); else { m = n & (2 * d - 1); m = m > d ? 2 * d - m : m; } __vp_assert(e.Top() * d == (float)m, "documented clamp, repeat and mirror"); __vp_reach("end");
}
// exact meaning of each source on small values; every case leaves a single symbolic quantity
static void Check(Env& e, BB::Source s, float want, bool cm, float unit, float tol) {
  if (unit != 0) e.st.stroke_unit_length = PhysicalDistance::Centimeters(unit); e.stack.clear(); e.Run(BB::SourceNode{s, BB::OutOfRange::kClamp, {-4096, 4096}}); float v = e.Top();
  if (cm && unit == 0) { __vp_assert(Null(v), "centimetres are null without a unit length"); return; }
  float got = v * 8192 - 4096; __vp_assert((got - want <= tol) & (want - got <= tol), "documented source value");
}
typedef BB::Source S;
static const float kSize[] = {0.5f, 1, 4}, kUnit[] = {0, 1, 0.5f, 2};
VP_ENTRY(k02_sources_motion) { // velocity and acceleration
  float size = kSize[__vp_concretize(__vp_range("size", 0, 2))], unit = kUnit[__vp_concretize(__vp_range("unit", 0, 3))]; Env e; e.size = size; int k = __vp_range("k", -8, 7); e.in.velocity = {3.f * k, 4.f * k}; e.in.acceleration = {-4.f * k, 3.f * k}; int m = k < 0 ? -5 * k : 5 * k;
  Check(e, S::kSpeedInMultiplesOfBrushSizePerSecond, m / size, false, unit, 0); Check(e, S::kVelocityXInMultiplesOfBrushSizePerSecond, 3 * k / size, false, unit, 0); Check(e, S::kVelocityYInMultiplesOfBrushSizePerSecond, 4 * k / size, false, unit, 0);
  Check(e, S::kAccelerationInMultiplesOfBrushSizePerSecondSquared, m / size, false, unit, 0); Check(e, S::kAccelerationXInMultiplesOfBrushSizePerSecondSquared, -4 * k / size, false, unit, 0); Check(e, S::kAccelerationYInMultiplesOfBrushSizePerSecondSquared, 3 * k / size, false, unit, 0);
  Check(e, S::kInputSpeedInCentimetersPerSecond, m * unit, true, unit, 0); Check(e, S::kInputVelocityXInCentimetersPerSecond, 3 * k * unit, true, unit, 0); Check(e, S::kInputVelocityYInCentimetersPerSecond, 4 * k * unit, true, unit, 0);
  Check(e, S::kInputAccelerationInCentimetersPerSecondSquared, m * unit, true, unit, 0); Check(e, S::kInputAccelerationXInCentimetersPerSecondSquared, -4 * k * unit, true, unit, 0); Check(e, S::kInputAccelerationYInCentimetersPerSecondSquared, 3 * k * unit, true, unit, 0); __vp_reach("end");
}
VP_ENTRY(k02_sources_forward) { // acceleration along and across the direction of motion
  static const float kV[][2] = {{3, 4}, {-3, -4}, {-4, 3}, {5, 0}, {0, -5}}; int v = __vp_concretize(__vp_range("v", 0, 4)); float size = kSize[__vp_concretize(__vp_range("size", 0, 2))], unit = kUnit[__vp_concretize(__vp_range("unit", 0, 3))]; bool swap = __vp_concretize(__vp_range("swap", 0, 1)); int a = __vp_range("a", -8, 7); Env e; e.size = size; e.in.velocity = {kV[v][0], kV[v][1]}; float x = kV[v][0], y = kV[v][1]; if (swap) { float t = x; x = -y; y = t; } e.in.acceleration = {x * a, y * a}; float along = swap ? 0 : 5.f * a, across = swap ? 5.f * a : 0;
  Check(e, S::kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared, along / size, false, unit, 0.01f); Check(e, S::kAccelerationLateralInMultiplesOfBrushSizePerSecondSquared, across / size, false, unit, 0.01f); Check(e, S::kInputAccelerationForwardInCentimetersPerSecondSquared, along * unit, true, unit, 0.01f); Check(e, S::kInputAccelerationLateralInCentimetersPerSecondSquared, across * unit, true, unit, 0.01f); __vp_reach("end");
}
VP_ENTRY(k02_sources_progress) { // distance and time, relative to the stroke's totals
  float size = kSize[__vp_concretize(__vp_range("size", 0, 2))], unit = kUnit[__vp_concretize(__vp_range("unit", 0, 3))]; int total = __vp_concretize(__vp_range("total", 0, 7)), real = __vp_concretize(__vp_range("real", 0, 7)), d = __vp_range("d", 0, 15); Env e; e.size = size; e.in.traveled_distance = d; e.in.elapsed_time = Duration32::Seconds(d * 0.125f); e.st.complete_traveled_distance = total; e.st.complete_elapsed_time = Duration32::Seconds(2 * total * 0.125f); e.st.total_real_distance = real; e.st.total_real_elapsed_time = Duration32::Seconds(2 * real * 0.125f); int pd = d > real ? d - real : 0, pt = d > 2 * real ? d - 2 * real : 0, rt = 2 * total - d;
  Check(e, S::kDistanceTraveledInMultiplesOfBrushSize, d / size, false, unit, 0); Check(e, S::kTimeOfInputInSeconds, d * 0.125f, false, unit, 0); Check(e, S::kTimeOfInputInMillis, d * 125.f, false, unit, 0); Check(e, S::kPredictedDistanceTraveledInMultiplesOfBrushSize, pd / size, false, unit, 0); Check(e, S::kPredictedTimeElapsedInSeconds, pt * 0.125f, false, unit, 0); Check(e, S::kPredictedTimeElapsedInMillis, pt * 125.f, false, unit, 0); Check(e, S::kDistanceRemainingInMultiplesOfBrushSize, (total - d) / size, false, unit, 0); Check(e, S::kTimeSinceInputInSeconds, rt * 0.125f, false, unit, 0); Check(e, S::kTimeSinceInputInMillis, rt * 125.f, false, unit, 0); Check(e, S::kInputDistanceTraveledInCentimeters, d * unit, true, unit, 0); Check(e, S::kPredictedInputDistanceTraveledInCentimeters, pd * unit, true, unit, 0); __vp_reach("end");
}
VP_ENTRY(k02_optional_sources) { // null when the property is missing or indeterminate
  Env e = Any(); int s = __vp_concretize(__vp_range("s", 0, 14)); bool p = e.in.pressure >= 0, t = e.in.tilt.ValueInRadians() >= 0, o = e.in.orientation.ValueInRadians() >= 0, upright = e.in.tilt.ValueInRadians() == 0, flat = e.in.tilt == kQuarterTurn, dir = e.dir.has_value(), null, converse = true;
  switch ((S)s) { case S::kNormalizedPressure: null = !p; break; case S::kTiltInRadians: null = !t; break; case S::kTiltXInRadians: case S::kTiltYInRadians: null = !t | !o | flat; converse = false; break; case S::kOrientationInRadians: case S::kOrientationAboutZeroInRadians: null = !o | upright; break; case S::kDirectionInRadians: case S::kDirectionAboutZeroInRadians: null = !dir; break; case S::kNormalizedDirectionX: case S::kNormalizedDirectionY: null = !dir; converse = false; break; default: return; }
  e.Run(BB::SourceNode{(BB::Source)s, BB::OutOfRange::kClamp, {0, 1}}); float v = e.Top(); if (converse) __vp_assert(Null(v) == null, "null exactly when indeterminate"); else if (null) __vp_assert(Null(v), "null when indeterminate");
  auto c = [](float x) { return x < 0 ? 0 : x > 1 ? 1 : x; }; if (s == (int)S::kNormalizedPressure && p) __vp_assert(v == e.in.pressure, "pressure"); if (s == (int)S::kTiltInRadians && t) __vp_assert(v == c(e.in.tilt.ValueInRadians()), "tilt"); if (s == (int)S::kOrientationInRadians && !null) __vp_assert(v == c(e.in.orientation.ValueInRadians()), "orientation"); if ((s == (int)S::kTiltXInRadians || s == (int)S::kTiltYInRadians) && !null && upright) __vp_assert(v == 0, "upright has no tilt-x or tilt-y"); if (s == (int)S::kDirectionAboutZeroInRadians && !null) __vp_assert(v == c(e.dir->ValueInRadians()), "direction"); __vp_reach("end");
}
VP_ENTRY(k02_direction) { // axis-aligned and diagonal directions and tilts, concretely placed
  int q = __vp_concretize(__vp_range("q", -3, 4)); float a = q * 0.78539816f; Env e; e.dir = Angle::Radians(a); static const float kC[] = {1, 0.70710678f, 0, -0.70710678f, -1, -0.70710678f, 0, 0.70710678f}; float c = kC[(q + 8) % 8], sn = kC[(q + 6) % 8]; auto get = [&](BB::Source s) { e.stack.clear(); e.Run(BB::SourceNode{s, BB::OutOfRange::kClamp, {-8, 8}}); return e.Top() * 16 - 8; }; auto near = [](float x, float y) { return (x - y < 1e-4f) & (y - x < 1e-4f); };
  __vp_assert(near(get(S::kDirectionInRadians), q < 0 ? a + 6.2831853f : a), "direction in [0,2pi)"); __vp_assert(near(get(S::kDirectionAboutZeroInRadians), a), "direction about zero"); __vp_assert(near(get(S::kNormalizedDirectionX), c), "direction x"); __vp_assert(near(get(S::kNormalizedDirectionY), sn), "direction y");
  float tilt = __vp_concretize(__vp_range("tilt", 0, 3)) * 0.5f; e.in.tilt = Angle::Radians(tilt); e.in.orientation = Angle::Radians(q < 0 ? a + 6.2831853f : a); static const float kTan[] = {0, 0.54630249f, 1.5574077f, 14.101420f}; auto tan_of = [](float x) { return __builtin_sinf(x) / __builtin_cosf(x); }; float tn = kTan[(int)(tilt * 2)]; float tx = get(S::kTiltXInRadians), ty = get(S::kTiltYInRadians); __vp_assert(near(get(S::kTiltInRadians), tilt), "tilt"); if (tilt > 0) { float ex = tan_of(tx) - c * tn, ey = tan_of(ty) - sn * tn; __vp_assert((ex < 0.03f) & (ex > -0.03f) & (ey < 0.03f) & (ey > -0.03f), "tilt components"); __vp_assert(near(get(S::kOrientationAboutZeroInRadians), a), "orientation about zero"); } else __vp_assert((tx == 0) & (ty == 0), "upright"); __vp_reach("end");
}
VP_ENTRY(k02_filters) {
  Env e; float v = Value("null", "v"); bool p = __vp_bool("p"), t = __vp_bool("t"), o = __vp_bool("o"); if (p) e.in.pressure = __vp_f32_range("pressure", 0, 1); if (t) e.in.tilt = Angle::Radians(__vp_f32_range("tilt", 0, 1.5f)); if (o) e.in.orientation = Angle::Radians(__vp_f32_range("orient", 0, 6)); int k = __vp_concretize(__vp_range("k", 0, 3)); bool present = k == BB::kPressure ? p : k == BB::kTilt ? t : k == BB::kOrientation ? o : t & o; e.stack = {7, v}; e.Run(BB::FallbackFilterNode{(BB::OptionalInputProperty)k}); __vp_assert((e.stack.size() == 2) & (e.stack[0] == 7), "replaces its input"); __vp_assert(present ? Null(e.Top()) : __vp_same(e.Top(), v), "fallback passes only when the property is missing");
  int tool = __vp_concretize(__vp_range("tool", 0, 3)); bool m[4] = {__vp_bool("m0"), __vp_bool("m1"), __vp_bool("m2"), __vp_bool("m3")}; typedef StrokeInput::ToolType T; static const T kT[] = {T::kUnknown, T::kMouse, T::kTouch, T::kStylus}; e.st.tool_type = kT[tool]; e.stack = {7, v}; e.Run(BB::ToolTypeFilterNode{{.unknown = m[0], .mouse = m[1], .touch = m[2], .stylus = m[3]}}); __vp_assert((e.stack.size() == 2) & (e.stack[0] == 7), "replaces its input (tool)"); __vp_assert(m[tool] ? __vp_same(e.Top(), v) : Null(e.Top()), "tool filter passes only enabled tools"); __vp_reach("end");
}
VP_ENTRY(k02_binary) {
  Env e; float a = Value("na", "a"), b = Value("nb", "b"); bool sum = __vp_bool("sum"); e.stack = {7, a, b}; e.Run(BB::BinaryOpNode{sum ? BB::BinaryOp::kSum : BB::BinaryOp::kProduct}); __vp_assert((e.stack.size() == 2) & (e.stack[0] == 7), "two inputs, one output"); float r = e.Top(); __vp_assert(NF(r), "null or finite"); if (Null(a) | Null(b)) __vp_assert(Null(r), "null propagates"); else { float w = sum ? a + b : a * b; if (Fin(w)) __vp_assert(r == w, "sum or product"); else __vp_assert(Null(r), "overflow is null"); } __vp_reach("end");
}
VP_ENTRY(k02_interpolation) {
  Env e; float p = Value("np", "p"), a = Value("na", "a"), b = Value("nb", "b"); bool inv = __vp_bool("inverse"); e.stack = {7, p, a, b}; e.Run(BB::InterpolationNode{inv ? BB::Interpolation::kInverseLerp : BB::Interpolation::kLerp}); __vp_assert((e.stack.size() == 2) & (e.stack[0] == 7), "three inputs, one output"); float r = e.Top(); __vp_assert(NF(r), "null or finite"); if (Null(p) | Null(a) | Null(b)) __vp_assert(Null(r), "null propagates"); else if (inv) { if (a == b) __vp_assert(Null(r), "empty range is null"); else if (Fin(b - a) & (p == a)) __vp_assert(r == 0, "0 at the start"); } else if (p == 0 && Fin(b - a)) __vp_assert(r == a, "start at 0"); __vp_reach("end");
}
VP_ENTRY(k02_interpolation_exact) { Env e; int p = __vp_range("p", -8, 16), a = __vp_range("a", -8, 7), d = __vp_concretize(__vp_range("d", 0, 3)); int w = 1 << d; e.stack = {p * 0.125f, (float)a, (float)(a + w)}; e.Run(BB::InterpolationNode{BB::Interpolation::kLerp}); __vp_assert(e.Top() == a + p * 0.125f * w, "linear interpolation"); e.stack = {p * 0.125f, (float)a, (float)(a + w)}; e.Run(BB::InterpolationNode{BB::Interpolation::kInverseLerp}); __vp_assert(e.Top() * w == p * 0.125f - a, "inverse interpolation"); __vp_reach("end"); }
VP_ENTRY(k02_constant) { Env e; float v = __vp_f32("v"); e.stack = {7}; e.Run(BB::ConstantNode{v}); __vp_assert((e.stack.size() == 2) & (e.stack[0] == 7) & __vp_same(e.Top(), v), "constant"); __vp_reach("end"); }
VP_ENTRY(k02_response) { Env e; float v = Value("n", "v"); int k = __vp_concretize(__vp_range("k", 0, 6)); e.stack = {7, v}; e.Run(EasingImplementation(EasingFunction{(EasingFunction::Predefined)k})); __vp_assert((e.stack.size() == 2) & (e.stack[0] == 7), "replaces its input"); if (Null(v)) __vp_assert(Null(e.Top()), "null propagates"); __vp_assert(NF(e.Top()), "null or finite"); __vp_reach("end"); }
VP_ENTRY(k02_response_linear) { Env e; float v = Value("n", "v"), y = __vp_f32_range("y", -3.4e38f, 3.4e38f); e.stack = {7, v}; e.Run(EasingImplementation(EasingFunction{EasingFunction::Linear{{{0.5f, y}}}})); if (Null(v)) __vp_assert(Null(e.Top()), "null propagates"); __vp_assert(NF(e.Top()), "null or finite"); __vp_reach("end"); }
VP_ENTRY(k02_target) {
  Env e; float v = Value("n", "v"), a = __vp_f32_range("a", -3.4028235e38f, 3.4028235e38f), b = __vp_f32_range("b", -3.4028235e38f, 3.4028235e38f), old = __vp_f32_range("old", -3.4028235e38f, 3.4028235e38f); e.mods[0] = 5; e.mods[1] = old; e.stack = {7, v}; e.Run(TargetNodeImplementation{.target_index = 1, .target_modifier_range = {a, b}}); __vp_assert((e.stack.size() == 1) & (e.stack[0] == 7) & (e.mods[0] == 5), "consumes one value"); if (Null(v)) __vp_assert(e.mods[1] == old, "null keeps the previous modifier"); __vp_assert(Fin(e.mods[1]), "modifiers stay finite"); if (v == 0 && Fin(b - a)) __vp_assert(e.mods[1] == a, "start of the range at 0"); __vp_reach("end");
}
VP_ENTRY(k02_target_exact) { Env e; int v = __vp_range("v", -8, 16), a = __vp_range("a", -8, 7); int w = 1 << __vp_concretize(__vp_range("d", 0, 3)); e.stack = {v * 0.125f}; e.Run(TargetNodeImplementation{0, {(float)a, (float)(a + w)}}); __vp_assert(e.mods[0] == a + v * 0.125f * w, "modifier interpolates its range"); __vp_reach("end"); }
static void Damp(int src) {
  Env e; bool nv = __vp_bool("nv"), nd = __vp_bool("nd"); int vi = __vp_range("v", -8, 7), di = __vp_concretize(__vp_range("d", -1, 2)); float v = vi * 0.25f, d = di * 0.5f, in = nv ? kNullBehaviorNodeValue : v, old = nd ? kNullBehaviorNodeValue : d; float gap = 0.5f * __vp_concretize(__vp_range("gap", 0, 2)); int move = __vp_concretize(__vp_range("move", 0, 2)), size = 1 + __vp_concretize(__vp_range("size", 0, 1)); bool unit = __vp_bool("unit"); if (unit) e.st.stroke_unit_length = PhysicalDistance::Centimeters(2); e.size = size;
  e.in.traveled_distance = 3 + (src != 2 ? move : 1); e.in.elapsed_time = Duration32::Seconds(2 + (src == 2 ? move : 1)); if (!nd || __vp_bool("hasprev")) e.prev = InputMetrics{3, Duration32::Seconds(2)}; e.damped[0] = 3; e.damped[1] = old; e.stack = {7, in}; e.Run(DampingNodeImplementation{1, (BB::DampingSource)src, gap});
  float r = e.Top(); __vp_assert((e.stack.size() == 2) & (e.stack[0] == 7) & (e.damped[0] == 3) & __vp_same(r, e.damped[1]), "remembers its output");
  if (nv) __vp_assert(__vp_same(r, old), "null input keeps the previous value"); else if (nd || gap == 0 || (src == 0 && !unit)) __vp_assert(r == v, "snaps"); else {
    float span = src == 0 ? gap : src == 1 ? gap * size : gap, delta = src == 0 ? 2 * move : move, x = delta / span, w = x == 0 ? 1 : x == 0.5f ? 0.60653066f : x == 1 ? 0.36787944f : x == 2 ? 0.13533528f : x == 4 ? 0.018315639f : x == 8 ? 0.00033546263f : -1; __vp_assert(w >= 0, "covered"); float want = v + (d - v) * w; __vp_assert((r - want < 1e-5f) & (want - r < 1e-5f), "exponential decay towards the input over the damping gap"); if (x == 0) __vp_assert(r == d, "no progress, no change"); }
  __vp_reach("end");
}
VP_ENTRY(k02_damping_cm) { Damp(0); }
VP_ENTRY(k02_damping_size) { Damp(1); }
VP_ENTRY(k02_damping_time) { Damp(2); }
VP_ENTRY(k02_damping_finite) { // any finite values: result null or finite
  Env e; float v = Value("nv", "v"), d = Value("nd", "d"); e.prev = InputMetrics{0, Duration32::Zero()}; e.in.elapsed_time = Duration32::Seconds(__vp_f32_range("t", 0, 1000)); e.damped[0] = d; e.stack = {v}; e.Run(DampingNodeImplementation{0, BB::DampingSource::kTimeInSeconds, 1}); __vp_assert(NF(e.Top()), "null or finite"); __vp_reach("end");
}
VP_ENTRY(k02_damping_recovers) { // after an update with a null result the next non-null value is taken over at once
  Env e; float v = Value("nv", "v"), d = Value("nd", "d"), w = __vp_f32("w"); __vp_assume(Fin(w)); e.prev = InputMetrics{0, Duration32::Zero()}; int k = __vp_concretize(__vp_range("k", 1, 3)); e.in.elapsed_time = Duration32::Seconds(k * 0.5f); e.damped[0] = d; e.stack = {v}; DampingNodeImplementation node{0, BB::DampingSource::kTimeInSeconds, 1};
  e.Run(node); if (!Null(e.Top())) return; e.prev = InputMetrics{0, Duration32::Seconds(k * 0.5f)}; e.in.elapsed_time = Duration32::Seconds(k); e.stack = {w}; e.Run(node); __vp_assert(e.Top() == w, "the value after a null one is not damped"); __vp_reach("end");
}
