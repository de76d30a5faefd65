// SRC: ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/types/duration.cc ink/geometry/angle.cc ink/geometry/vec.cc
// OPT: budget=120
// BOUND: every value of every enumerator field, range, gap and constant of a single node of each of the nine kinds
// BOUND: all node sequences of length 0 to 3 over all nine kinds, and of length 4 and 5 over the five stack effects (thorough: 6), each with one node that may have an invalid parameter
// ASSUME: error texts are not modelled
#include "ink/brush/brush_behavior.h"
#include "vp.h"
using namespace ink; typedef BrushBehavior BB;
static bool Fin(float x) { return (x - x) == 0; }
static bool NodeOk(const BB::Node& n) { auto s = brush_internal::ValidateBrushBehaviorNode(n); if (!s.ok()) __vp_assert(s.code() == absl::StatusCode::kInvalidArgument, "invalid argument"); return s.ok(); }
static bool Ok(const BB& b) { auto s = brush_internal::ValidateBrushBehavior(b); if (!s.ok()) __vp_assert(s.code() == absl::StatusCode::kInvalidArgument, "invalid argument"); return s.ok(); }
static bool In(int v, int n) { return (v >= 0) & (v < n); }
static const int kSources = 1 + (int)BB::Source::kInputAccelerationLateralInCentimetersPerSecondSquared, kTargets = 1 + (int)BB::Target::kOpacityMultiplier;
VP_ENTRY(b04_source) {
  static_assert(kSources == 37); int s = (int8_t)__vp_u8("source"), o = (int8_t)__vp_u8("oor"); float a = __vp_f32("a"), b = __vp_f32("b"); bool since = (s == (int)BB::Source::kTimeSinceInputInSeconds) | (s == (int)BB::Source::kTimeSinceInputInMillis);
  bool want = In(s, kSources) & In(o, 3) & !(since & (o != (int)BB::OutOfRange::kClamp)) & Fin(a) & Fin(b) & (a != b); __vp_assert(NodeOk(BB::SourceNode{(BB::Source)s, (BB::OutOfRange)o, {a, b}}) == want, "source node"); __vp_reach("end");
}
VP_ENTRY(b04_target) { int t = (int8_t)__vp_u8("t"); float a = __vp_f32("a"), b = __vp_f32("b"); __vp_assert(NodeOk(BB::TargetNode{(BB::Target)t, {a, b}}) == (In(t, kTargets) & Fin(a) & Fin(b) & (a != b)), "target node"); static_assert(kTargets == 15); __vp_reach("end"); }
VP_ENTRY(b04_others) {
  float v = __vp_f32("v"); __vp_assert(NodeOk(BB::ConstantNode{v}) == Fin(v), "constant node");
  int p = (int8_t)__vp_u8("p"); __vp_assert(NodeOk(BB::FallbackFilterNode{(BB::OptionalInputProperty)p}) == In(p, 4), "fallback filter node");
  bool u = __vp_bool("u"), m = __vp_bool("m"), t = __vp_bool("t"), s = __vp_bool("s"); __vp_assert(NodeOk(BB::ToolTypeFilterNode{{u, m, t, s}}) == (u | m | t | s), "tool type filter node");
  int e = __vp_i32("e"); __vp_assert(NodeOk(BB::DampingNode{(BB::DampingSource)e, v}) == (In(e, 3) & Fin(v) & (v >= 0)), "damping node"); __vp_assert(NodeOk(BB::BinaryOpNode{(BB::BinaryOp)e}) == In(e, 2), "binary op node"); __vp_assert(NodeOk(BB::InterpolationNode{(BB::Interpolation)e}) == In(e, 2), "interpolation node");
  __vp_assert(NodeOk(BB::ResponseNode{{EasingFunction::Steps{e, EasingFunction::StepPosition::kJumpEnd}}}) == (e >= 1), "response node"); __vp_reach("end");
}
static BB::Node Make(int k, float v) { // valid exactly when v is finite (kinds without a float are always valid)
  switch (k) { case 0: return BB::ConstantNode{v}; case 1: return BB::ResponseNode{{EasingFunction::CubicBezier{0, v, 1, 1}}}; case 2: return BB::BinaryOpNode{BB::BinaryOp::kSum}; case 3: return BB::InterpolationNode{BB::Interpolation::kLerp}; case 4: return BB::TargetNode{BB::Target::kPinchOffset, {v, v == 0 ? 1.f : 0.f}}; case 5: return BB::SourceNode{BB::Source::kNormalizedPressure, BB::OutOfRange::kClamp, {v, v == 0 ? 1.f : 0.f}}; case 6: return BB::FallbackFilterNode{BB::kPressure}; case 7: return BB::ToolTypeFilterNode{BB::kAllToolTypes}; default: return BB::DampingNode{BB::DampingSource::kTimeInSeconds, v < 0 ? -v : v}; }
}
static const int kIn[] = {0, 1, 2, 3, 1, 0, 1, 1, 1}, kOut[] = {1, 1, 1, 1, 0, 1, 1, 1, 1}; static const bool kHasFloat[] = {1, 1, 0, 0, 1, 1, 0, 0, 1};
static const char* kK[] = {"k0", "k1", "k2", "k3", "k4", "k5"};
static void Program(int n, int kinds) {
  float v = __vp_f32("v"); int at = n ? __vp_concretize(__vp_range("at", 0, n - 1)) : 0; BB b; int depth = 0; bool want = true; int k[6];
  for (int i = 0; i < n; i++) { k[i] = __vp_concretize(__vp_range(kK[i], 0, kinds - 1)); b.nodes.push_back(Make(k[i], i == at ? v : 0)); want = want & (depth >= kIn[k[i]]); depth += kOut[k[i]] - kIn[k[i]]; }
  want = want & (depth == 0) & (n == 0 || !kHasFloat[k[at]] || Fin(v)); __vp_assert(Ok(b) == want, "accepted exactly when every node is valid and the stack works out"); __vp_reach("end");
}
VP_ENTRY(b04_program2) { Program(__vp_concretize(__vp_range("n", 0, 2)), 9); }
VP_ENTRY(b04_program3) { Program(3, 9); }
VP_ENTRY(b04_program4) { Program(4, 5); }
static void Stack(int n) { // stack effects only
  BB b; int depth = 0; bool want = true; for (int i = 0; i < n; i++) { int k = __vp_concretize(__vp_range(kK[i], 0, 4)); b.nodes.push_back(Make(k, 0)); want = want & (depth >= kIn[k]); depth += kOut[k] - kIn[k]; } __vp_assert(Ok(b) == (want & (depth == 0)), "stack works out"); __vp_reach("end");
}
VP_ENTRY(b04_stack5) { Stack(5); }
VP_ENTRY_T(b04_stack6) { Stack(6); }
VP_ENTRY(b04_equality) {
  int s = (int8_t)__vp_u8("s"), s2 = (int8_t)__vp_u8("s2"); float a = __vp_f32("a"), b = __vp_f32("b"), c = __vp_f32("c"), d = __vp_f32("d");
  BB::Node x = BB::SourceNode{(BB::Source)s, BB::OutOfRange::kClamp, {a, b}}, y = BB::SourceNode{(BB::Source)s2, BB::OutOfRange::kClamp, {c, d}}; bool same = (s == s2) & (a == c) & (b == d); __vp_assert((x == y) == same, "source equality");
  BB p{{x}}, q{{y}}; __vp_assert((p == q) == same, "behaviour equality"); __vp_assert((p != q) == !same, "behaviour inequality"); __vp_assert(!(p == BB{}), "length differs"); __vp_assert(!(x == BB::Node(BB::ConstantNode{a})), "kind differs");
  bool m[8]; static const char* mn[] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7"}; for (int i = 0; i < 8; i++) m[i] = __vp_bool(mn[i]); BB::EnabledToolTypes e{m[0], m[1], m[2], m[3]}, f{m[4], m[5], m[6], m[7]}; __vp_assert((e == f) == ((m[0] == m[4]) & (m[1] == m[5]) & (m[2] == m[6]) & (m[3] == m[7])), "tool type equality"); __vp_assert(e.HasAnyTypes() == (m[0] | m[1] | m[2] | m[3]), "any"); __vp_assert(e.HasAllTypes() == (m[0] & m[1] & m[2] & m[3]), "all");
  __vp_assert((BB::DampingNode{(BB::DampingSource)s, a} == BB::DampingNode{(BB::DampingSource)s2, c}) == ((s == s2) & (a == c)), "damping equality"); __vp_assert((BB::TargetNode{(BB::Target)s, {a, b}} == BB::TargetNode{(BB::Target)s2, {c, d}}) == same, "target equality"); __vp_reach("end");
}
