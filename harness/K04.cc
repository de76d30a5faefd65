// SRC: ink/strokes/internal/brush_tip_modeler.cc ink/strokes/internal/brush_tip_modeler_helpers.cc ink/strokes/internal/brush_tip_state.cc ink/strokes/internal/easing_implementation.cc ink/brush/easing_function.cc ink/brush/brush_behavior.cc ink/brush/brush_tip.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/envelope.cc ink/types/duration.cc ink/types/physical_distance.cc
// OPT: budget=120
// BOUND: 4 stable inputs delivered in 1 to 2 updates, each followed by 0 to 2 unstable inputs with velocity and acceleration on a half grid in [-8,8), pressure, tilt and orientation on an eighth grid and one of 3 positions; every source with a fixed target, every target with a fixed source, with and without damping; distances and times in whole steps of 1 to 2
// BOUND: 5 stable inputs in 5 updates with damping and particles; strokes after another stroke of a different tip; sources that depend on the remaining distance or time with reversed ranges and every out-of-range behavior
// BOUND: particle brushes with gap 0.75 to 3 in distance and/or time, positions any float
#include "tip_ref.h"
#include "ink/strokes/internal/brush_tip_modeler.h"
typedef BB::Target T; typedef BB::Source S;
static const float kBig = 1e6f;
static ModeledStrokeInput Make(float x, float y, float d, float t, float v, float p, bool props) { ModeledStrokeInput in; in.position = {x, y}; in.velocity = {v, 3}; in.acceleration = {2, v}; in.traveled_distance = d; in.elapsed_time = Duration32::Seconds(t); if (props) { in.pressure = p; in.tilt = Angle::Radians(0.25f + 0.5f * p); in.orientation = Angle::Radians(6 * p); } return in; }
struct Stroke { // concrete stable inputs, shared by the histories that are compared
  std::vector<ModeledStrokeInput> stable; bool props;
  explicit Stroke(int n, bool p, int steps) : props(p) { static const float kX[] = {0, 1, 1, 3, 2}, kY[] = {0, 0, 2, 2, 1}, kV[] = {0, 5, -2, 1, 3}, kP[] = {0.25f, 0.75f, 0.5f, 1, 0}; float d = 0, t = 0; for (int i = 0; i < n; ++i) { stable.push_back(Make(kX[i], kY[i], d, t, kV[i], kP[i], p)); d += 1 + ((steps >> i) & 1); t += 1 + ((steps >> (i + 1)) & 1); } }
};
struct Run { // one history: updates whose unstable tails are arbitrary
  BrushTipModeler m; std::vector<BrushTipState> fixed; const Stroke& s; bool unit, symbolic_v, symbolic_p;
  Run(const Stroke& st, const BrushTip& tip, float size, bool u, bool v, bool p) : s(st), unit(u), symbolic_v(v), symbolic_p(p) { m.StartStroke(&tip, size); }
  void Update(int stable, int tail) {
    std::vector<ModeledStrokeInput> in(s.stable.begin(), s.stable.begin() + stable); float d = stable ? in.back().traveled_distance : 0, t = stable ? in.back().elapsed_time.ToSeconds() : 0; StrokeInputModeler::State st; st.stable_input_count = stable; st.tool_type = StrokeInput::ToolType::kStylus; if (unit) st.stroke_unit_length = PhysicalDistance::Centimeters(0.5f);
    for (int i = 0; i < tail; ++i) { int where = __vp_concretize(__vp_range("where", 0, 2)); d += where == 1 ? 2 : 1; t += 1; float base = stable ? s.stable[stable - 1].position.x : 0; in.push_back(Make(where == 0 ? base : 7, where == 1 ? -5 : 2, d, t, symbolic_v && i == 0 ? vp::grid("v", -16, 15, 1) : 1, symbolic_p && i == 0 ? vp::grid("p", 0, 8, 3) : 0.5f, s.props)); }
    st.real_input_count = stable; st.total_real_distance = stable ? s.stable[stable - 1].traveled_distance : 0; st.total_real_elapsed_time = stable ? s.stable[stable - 1].elapsed_time : Duration32::Zero(); if (tail) { st.real_input_count++; st.total_real_distance = in[stable].traveled_distance; st.total_real_elapsed_time = in[stable].elapsed_time; } st.complete_traveled_distance = d; st.complete_elapsed_time = Duration32::Seconds(t + __vp_range("wait", 0, 1));
    m.UpdateStroke(st, in); for (const BrushTipState& x : m.NewFixedTipStates()) fixed.push_back(x); count = fixed.size() + m.VolatileTipStates().size(); total = in.size();
  }
  size_t count = 0, total = 0;
};
static bool Same(const BrushTipState& a, const BrushTipState& b) { return __vp_same(a.position.x, b.position.x) & __vp_same(a.position.y, b.position.y) & __vp_same(a.width, b.width) & __vp_same(a.height, b.height) & __vp_same(a.percent_radius, b.percent_radius) & __vp_same(a.rotation.ValueInRadians(), b.rotation.ValueInRadians()) & __vp_same(a.slant.ValueInRadians(), b.slant.ValueInRadians()) & __vp_same(a.pinch, b.pinch) & __vp_same(a.hue_offset_in_full_turns, b.hue_offset_in_full_turns) & __vp_same(a.saturation_multiplier, b.saturation_multiplier) & __vp_same(a.luminosity_shift, b.luminosity_shift) & __vp_same(a.opacity_multiplier, b.opacity_multiplier); }
static void Compare(const Run& a, const Run& b) { __vp_assert(a.fixed.size() == b.fixed.size(), "the same tip states become fixed"); size_t n = a.fixed.size() < b.fixed.size() ? a.fixed.size() : b.fixed.size(); for (size_t i = 0; i < n; ++i) __vp_assert(Same(a.fixed[i], b.fixed[i]), "fixed tip states depend only on stable inputs"); }
static BrushTip Tip(S s, BB::OutOfRange o, T t, bool damp) { BrushTip tip; BB b; b.nodes.push_back(BB::SourceNode{s, o, {0, 2}}); if (damp) b.nodes.push_back(BB::DampingNode{BB::DampingSource::kTimeInSeconds, 0.5f}); b.nodes.push_back(BB::TargetNode{t, {0.5f, 1.5f}}); tip.behaviors.push_back(b); return tip; }
static void Histories(const BrushTip& tip, bool props, int steps, bool v, bool p) { // a: in up to three updates with arbitrary unstable inputs; b: the stable inputs alone, in one update
  Stroke s(4, props, steps); int k = __vp_concretize(__vp_range("k", 1, 3)), tail = __vp_concretize(__vp_range("tail", 0, 1));
  Run a(s, tip, 1, true, v, p), b(s, tip, 1, true, v, p); a.Update(k, 1 + tail); { Run c(s, tip, 1, true, v, p); c.Update(k, 0); Compare(a, c); } a.Update(4, 1 - tail); b.Update(4, 0); Compare(a, b); __vp_reach("end");
}
static bool MotionSource(int s) { return (s >= (int)S::kSpeedInMultiplesOfBrushSizePerSecond && s <= (int)S::kVelocityYInMultiplesOfBrushSizePerSecond) || s >= (int)S::kAccelerationInMultiplesOfBrushSizePerSecondSquared; }
static void Sources(int lo, int hi) { int src = __vp_concretize(__vp_range("src", lo, hi)); BrushTip tip = Tip((S)src, BB::OutOfRange::kClamp, T::kWidthMultiplier, __vp_concretize(__vp_range("damp", 0, 1))); Histories(tip, true, 5, MotionSource(src), src <= (int)S::kOrientationAboutZeroInRadians); }
VP_ENTRY(k04_sources_a) { Sources(0, 5); }
VP_ENTRY(k04_sources_b) { Sources(6, 12); }
VP_ENTRY(k04_sources_c) { Sources(13, 20); }
VP_ENTRY(k04_sources_d) { Sources(21, 28); }
VP_ENTRY(k04_sources_e) { Sources(29, 36); }
VP_ENTRY(k04_targets) { BrushTip tip = Tip(S::kNormalizedPressure, BB::OutOfRange::kClamp, (T)__vp_concretize(__vp_range("target", 0, 14)), false); Histories(tip, true, __vp_concretize(__vp_range("steps", 0, 1)) * 9, false, true); }
VP_ENTRY(k04_particles) { BrushTip tip = Tip(S::kSpeedInMultiplesOfBrushSizePerSecond, BB::OutOfRange::kMirror, T::kHeightMultiplier, true); static const float kGap[] = {0, 0.75f, 3}; int g = __vp_concretize(__vp_range("gap", 1, 8)); tip.particle_gap_distance_scale = kGap[g % 3]; tip.particle_gap_duration = Duration32::Seconds(kGap[g / 3]); Histories(tip, false, 5, false, false); }
// Shape of the output: one state per input without particle gaps; particles are separated by empty states and spaced by the gap
VP_ENTRY(k04_counts) { int src = __vp_concretize(__vp_range("src", 0, 36)); BrushTip tip = Tip((S)src, BB::OutOfRange::kClamp, T::kSizeMultiplier, false); Stroke s(3, true, 2); Run a(s, tip, 1, false, MotionSource(src), true); a.Update(0, 1); __vp_assert(a.count == 1, "one state per input, nothing stable"); __vp_assert(a.fixed.empty(), "nothing fixed without stable inputs"); a.Update(1, 1); __vp_assert(a.count == 2, "one state per input"); a.Update(3, 0); __vp_assert(a.count == 3, "one state per input at the end"); a.Update(3, 1); __vp_assert(a.count == 4, "one state per input afterwards"); __vp_reach("end"); }
VP_ENTRY(k04_particle_gaps) {
  static const float kGap[] = {0, 0.5f, 0.75f, 3}; int g = __vp_concretize(__vp_range("gap", 1, 15)), steps = __vp_concretize(__vp_range("steps", 0, 7)); float gd = kGap[g % 4], gt = kGap[g / 4]; BrushTip tip; tip.particle_gap_distance_scale = gd; tip.particle_gap_duration = Duration32::Seconds(gt); Stroke s(4, false, steps); for (ModeledStrokeInput& in : s.stable) in.position = {in.traveled_distance, in.elapsed_time.ToSeconds()};
  Run a(s, tip, 1, false, false, false); a.Update(2, 0); a.Update(4, 0); std::vector<BrushTipState> all = a.fixed; for (const BrushTipState& x : a.m.VolatileTipStates()) all.push_back(x); __vp_assert(!all.empty() && all.size() % 2 == 0, "every particle is followed by a gap");
  const BrushTipState* last = nullptr; for (size_t i = 0; i + 1 < all.size(); i += 2) { __vp_assert((all[i].width == 1) & (all[i].height == 1), "particle"); __vp_assert((all[i + 1].width == 0) & (all[i + 1].height == 0), "gap"); if (last) __vp_assert((all[i].position.x - last->position.x >= gd - 1e-3f) & (all[i].position.y - last->position.y >= gt - 1e-3f), "particles are at least the gap apart"); if (last && gt == 0) __vp_assert(all[i].position.x - last->position.x <= gd + 1e-3f, "distance particles are no further apart"); last = &all[i]; }
  const ModeledStrokeInput& e = s.stable.back(); __vp_assert((e.traveled_distance - last->position.x < gd + 1e-3f) | (e.elapsed_time.ToSeconds() - last->position.y < gt + 1e-3f), "particles are emitted as long as they fit"); __vp_reach("end");
}
static float Weight() { return 0.125f * __vp_concretize(__vp_range("w", 0, 8)); }
static void Interpolation(int which) { // interpolating two modelled inputs keeps unreported properties unreported
  bool has[3] = {false, false, false}; if (which < 3) has[which] = true; ModeledStrokeInput in[2]; for (auto& i : in) { i.position = {which == 3 ? __vp_f32_range("x", -kBig, kBig) : 1, 2}; i.velocity = {1, which == 3 ? __vp_f32_range("vy", -kBig, kBig) : 1}; i.traveled_distance = which == 3 ? __vp_f32_range("d", 0, kBig) : 1; if (has[0]) i.pressure = __vp_f32_range("pressure", 0, 1); if (has[1]) i.tilt = Angle::Radians(__vp_f32_range("tilt", 0, 1.57f)); if (has[2]) i.orientation = Angle::Radians(vp::grid("o", 0, 50, 3)); if (has[2] && &i == in) i.orientation = Angle::Radians(1.25f * __vp_concretize(__vp_range("o0", 0, 4))); }
  float w = Weight(); ModeledStrokeInput r = Lerp(in[0], in[1], w);
  if (has[0]) __vp_assert((r.pressure >= -1e-6f) & (r.pressure <= 1 + 1e-6f), "pressure stays in range"); else __vp_assert(r.pressure == StrokeInput::kNoPressure, "unreported pressure stays unreported"); if (has[1]) __vp_assert((r.tilt.ValueInRadians() >= -1e-6f) & (r.tilt.ValueInRadians() <= 1.5708f), "tilt stays in range"); else __vp_assert(r.tilt == StrokeInput::kNoTilt, "unreported tilt stays unreported"); if (has[2]) __vp_assert((r.orientation.ValueInRadians() >= 0) & (r.orientation.ValueInRadians() < 6.2831855f), "orientation stays in range"); else __vp_assert(r.orientation == StrokeInput::kNoOrientation, "unreported orientation stays unreported"); if (w == 0) __vp_assert((r.position == in[0].position) & (r.traveled_distance == in[0].traveled_distance) & (r.velocity == in[0].velocity), "starts at the first input"); __vp_reach("end");
}
VP_ENTRY(k04_interpolate_pressure) { Interpolation(0); }
VP_ENTRY(k04_interpolate_tilt) { Interpolation(1); }
VP_ENTRY(k04_interpolate_orientation) { Interpolation(2); }
VP_ENTRY(k04_interpolate_motion) { Interpolation(3); }
VP_ENTRY(k04_interpolate_values) { // every property lies the same way between the two inputs
  int w8 = __vp_concretize(__vp_range("w8", 0, 8)), k = __vp_concretize(__vp_range("k", 0, 10)); float t = 0.125f * w8; auto val = [&](int f, float a) { return f == k ? a + vp::grid("v", -16, 16, 4) : a; };
  auto make = [&](int b) { ModeledStrokeInput i; auto v = [&](int f, float lo, float hi) { return b ? val(f, hi) : lo; }; i.position = {v(0, 1, 5), v(1, 7, 3)}; i.velocity = {v(2, -2, 4), v(3, 3, -5)}; i.acceleration = {v(4, 10, 2), v(5, -4, 12)}; i.traveled_distance = v(6, 8, 24); i.elapsed_time = Duration32::Seconds(v(7, 2, 18)); i.pressure = b ? (k == 8 ? vp::grid("v", 0, 32, 5) : 0.75f) : 0.25f; i.tilt = Angle::Radians(b ? (k == 9 ? vp::grid("v", 0, 24, 4) : 1.25f) : 0.5f); i.orientation = Angle::Radians(b ? (k == 10 ? vp::grid("v", 0, 50, 4) : 2) : 1); return i; };
  ModeledStrokeInput a = make(0), b = make(1), r = Lerp(a, b, t); auto ok = [&](float x, float y, float z) { float d = z - (x + (y - x) * t); return (d < 1e-4f) & (d > -1e-4f); };
  __vp_assert(ok(a.position.x, b.position.x, r.position.x) & ok(a.position.y, b.position.y, r.position.y), "position"); __vp_assert(ok(a.velocity.x, b.velocity.x, r.velocity.x) & ok(a.velocity.y, b.velocity.y, r.velocity.y), "velocity"); __vp_assert(ok(a.acceleration.x, b.acceleration.x, r.acceleration.x) & ok(a.acceleration.y, b.acceleration.y, r.acceleration.y), "acceleration"); __vp_assert(ok(a.traveled_distance, b.traveled_distance, r.traveled_distance), "distance"); __vp_assert(ok(a.elapsed_time.ToSeconds(), b.elapsed_time.ToSeconds(), r.elapsed_time.ToSeconds()), "time"); __vp_assert(ok(a.pressure, b.pressure, r.pressure), "pressure"); __vp_assert(ok(a.tilt.ValueInRadians(), b.tilt.ValueInRadians(), r.tilt.ValueInRadians()), "tilt"); __vp_assert(ok(a.orientation.ValueInRadians(), b.orientation.ValueInRadians(), r.orientation.ValueInRadians()), "orientation"); __vp_reach("end");
}
VP_ENTRY(k04_interpolate_missing) { // a property that either input does not report is not reported
  int m = __vp_concretize(__vp_range("m", 0, 63)); float t = vp::grid("t", 0, 8, 3); ModeledStrokeInput a, b; if (m & 1) a.pressure = 0.5f; if (m & 2) b.pressure = 0.25f; if (m & 4) a.tilt = Angle::Radians(0.5f); if (m & 8) b.tilt = Angle::Radians(1); if (m & 16) a.orientation = Angle::Radians(1); if (m & 32) b.orientation = Angle::Radians(3); ModeledStrokeInput r = Lerp(a, b, t);
  if ((m & 48) != 48) __vp_assert(r.orientation == StrokeInput::kNoOrientation, "orientation"); else __vp_assert(r.orientation.ValueInRadians() >= 1, "orientation"); if ((m & 3) == 3) __vp_assert(r.pressure >= 0.25f, "pressure"); if ((m & 3) == 0) __vp_assert(r.pressure == StrokeInput::kNoPressure, "pressure"); if ((m & 12) == 12) __vp_assert(r.tilt.ValueInRadians() >= 0.5f, "tilt"); if ((m & 12) == 0) __vp_assert(r.tilt == StrokeInput::kNoTilt, "tilt"); __vp_reach("end");
}
VP_ENTRY(k04_progress) { // particle emission terminates even where the gap is below float resolution
  static const float kD[] = {0, 3, 1e8f, 3e7f}, kG[] = {0, 0.5f, 1}; int k = __vp_concretize(__vp_range("k", 0, 3)), kt = __vp_concretize(__vp_range("kt", 0, 3)), g = __vp_concretize(__vp_range("g", 1, 8)); BrushTip tip; tip.particle_gap_distance_scale = kG[g % 3]; tip.particle_gap_duration = Duration32::Seconds(kG[g / 3]); Stroke s(3, false, 0); for (auto& in : s.stable) { in.traveled_distance = kD[k] + (kD[k] > 100 ? 64 : 1) * in.traveled_distance; in.elapsed_time = Duration32::Seconds(kD[kt] + (kD[kt] > 100 ? 64 : 1) * in.elapsed_time.ToSeconds()); }
  Run a(s, tip, 1, false, false, false); a.Update(3, 0); __vp_assert(a.count >= 2, "at least one particle"); __vp_reach("end");
}
// sources that count down or up with the stroke: reversed ranges, other units, behaviour outside the range
static BrushTip Late(int src, bool rev, BB::OutOfRange o, bool damp) { BrushTip tip; BB b; float hi = src == (int)S::kTimeSinceInputInMillis ? 2000 : 2; BB::SourceNode n{(S)src, o, {0, hi}}; if (rev) n.source_value_range = {hi, 0}; b.nodes.push_back(n); if (damp) b.nodes.push_back(BB::DampingNode{BB::DampingSource::kTimeInSeconds, 0.5f}); b.nodes.push_back(BB::TargetNode{T::kWidthMultiplier, {0.5f, 1.5f}}); tip.behaviors.push_back(b); return tip; }
static int Pk(const char* n, int hi) { return __vp_concretize(__vp_range(n, 0, hi)); }
static const S kLate[3] = {S::kDistanceRemainingInMultiplesOfBrushSize, S::kTimeSinceInputInSeconds, S::kTimeSinceInputInMillis};
static void LateCase(int src, bool damp) { BrushTip tip = Late((int)kLate[src], Pk("rev", 1), (BB::OutOfRange)Pk("oor", 2), damp); Histories(tip, true, 5, false, false); }
VP_ENTRY(k04_late_distance) { LateCase(0, false); }
VP_ENTRY(k04_late_seconds) { LateCase(1, false); }
VP_ENTRY(k04_late_millis) { LateCase(2, false); }
VP_ENTRY_T(k04_late_damped) { LateCase(Pk("src", 2), true); }
// more inputs than one update away: damped values and the particle position are carried over every update
static void Long(int kind) {
  int extra = Pk("extra", 1); BrushTip tip = Tip(S::kNormalizedPressure, BB::OutOfRange::kClamp, T::kWidthMultiplier, true); if (kind == 1) tip.behaviors[0].nodes[1] = BB::DampingNode{BB::DampingSource::kDistanceInMultiplesOfBrushSize, 2}; if (kind == 2) tip.particle_gap_distance_scale = 0.75f; if (extra) { BB b; b.nodes.push_back(BB::SourceNode{S::kTimeOfInputInSeconds, BB::OutOfRange::kMirror, {0, 3}}); b.nodes.push_back(BB::DampingNode{BB::DampingSource::kTimeInSeconds, 3}); b.nodes.push_back(BB::TargetNode{T::kPinchOffset, {0, 1}}); tip.behaviors.push_back(b); }
  Stroke s(5, true, 9); Run a(s, tip, 1, true, false, true), b(s, tip, 1, true, false, true); static const int kCut[4][4] = {{1, 2, 3, 4}, {3, 4, 4, 5}, {2, 2, 4, 5}, {0, 3, 4, 4}}; int c = Pk("cut", 3); for (int i = 0; i < 4; ++i) a.Update(kCut[c][i], i == 1 ? Pk("tail", 1) : i == 3); a.Update(5, 0); b.Update(5, 0); Compare(a, b); __vp_reach("end");
}
VP_ENTRY(k04_long_time) { Long(0); }
VP_ENTRY(k04_long_distance) { Long(1); }
VP_ENTRY(k04_long_particles) { Long(2); }
// a modeler used for another stroke before behaves like a new one
VP_ENTRY(k04_restart) {
  int first = Pk("first", 3), second = Pk("second", 3); auto make = [](int k) { BrushTip t = Tip(k == 1 ? S::kDirectionInRadians : S::kNormalizedPressure, BB::OutOfRange::kClamp, k == 3 ? T::kHeightMultiplier : T::kWidthMultiplier, k == 3); if (k == 0) t.behaviors.clear(); if (k == 2) { t = Late((int)S::kTimeSinceInputInSeconds, false, BB::OutOfRange::kClamp, false); t.particle_gap_distance_scale = 0.75f; } return t; }; BrushTip x = make(first), y = make(second);
  Stroke s(4, true, 5); Run a(s, x, 2, true, false, false), b(s, y, 1, true, false, true); a.Update(2, 1); if (Pk("more", 1)) a.Update(4, 0); a.m.StartStroke(&y, 1); a.fixed.clear(); __vp_assert(a.m.NewFixedTipStates().empty() && a.m.VolatileTipStates().empty(), "a new stroke has no tip states"); for (int k : {1, 4}) { a.Update(k, 0); b.Update(k, 0); Compare(a, b); auto p = a.m.VolatileTipStates(), q = b.m.VolatileTipStates(); __vp_assert(p.size() == q.size(), "as many volatile states"); } __vp_reach("end");
}
// time behaviors are unfinished exactly while their source can still change
VP_ENTRY(k04_unfinished) {
  int src = Pk("src", 3); bool rev = Pk("rev", 1); auto o = (BB::OutOfRange)Pk("oor", 2); BrushTip tip; if (src < 3) tip = Late((int)kLate[src], rev, o, false); else tip = Tip(S::kTimeOfInputInSeconds, o, T::kWidthMultiplier, true); if (Pk("more", 1)) tip.behaviors.insert(tip.behaviors.begin(), Tip(S::kDirectionInRadians, o, T::kHeightMultiplier, false).behaviors[0]);
  BrushTipModeler m; m.StartStroke(&tip, 3); StrokeInputModeler::State st; st.total_real_elapsed_time = Duration32::Seconds(5); float w = vp::grid("w", 0, 63, 4); st.complete_elapsed_time = Duration32::Seconds(5 + w); bool timed = src == 1 || src == 2; float bound = timed ? o == BB::OutOfRange::kClamp ? 2 : 1e9f : 0; __vp_assert(m.HasUnfinishedTimeBehaviors(st) == (w < bound), "unfinished exactly while the source can change"); __vp_reach("end");
}
