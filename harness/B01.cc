// SRC: ink/brush/easing_function.cc
// OPT: budget=60
// BOUND: every 32-bit enumerator value, step count and float parameter; point lists of 0 to 3 points (thorough: 4)
// ASSUME: error texts are not modelled
#include "ink/brush/easing_function.h"
#include "vp.h"
using namespace ink; typedef EasingFunction EF;
static bool Fin(float x) { return (x - x) == 0; }
static bool Ok(const EF& e) { auto s = brush_internal::ValidateEasingFunction(e); if (!s.ok()) __vp_assert(s.code() == absl::StatusCode::kInvalidArgument, "invalid argument"); return s.ok(); }
VP_ENTRY(b01_predefined) { int k = __vp_i32("k"); __vp_assert(Ok({(EF::Predefined)k}) == ((k >= 0) & (k <= 6)), "predefined functions are the enumerators"); __vp_reach("end"); }
VP_ENTRY(b01_cubic) { float a = __vp_f32("x1"), b = __vp_f32("y1"), c = __vp_f32("x2"), d = __vp_f32("y2"); __vp_assert(Ok({EF::CubicBezier{a, b, c, d}}) == ((a >= 0) & (a <= 1) & (c >= 0) & (c <= 1) & Fin(b) & Fin(d)), "cubic Bezier parameters"); __vp_reach("end"); }
VP_ENTRY(b01_steps) { int n = __vp_i32("n"), p = __vp_i32("p"); bool pos = (p >= 0) & (p <= 3); __vp_assert(Ok({EF::Steps{n, (EF::StepPosition)p}}) == (pos & (n >= 1) & !((p == (int)EF::StepPosition::kJumpNone) & (n < 2))), "step parameters"); __vp_reach("end"); }
static void Lin(int n) { static const char* nx[] = {"x0", "x1", "x2", "x3"}; static const char* ny[] = {"y0", "y1", "y2", "y3"}; EF::Linear l; bool want = true; for (int i = 0; i < n; i++) { Point p = {__vp_f32(nx[i]), __vp_f32(ny[i])}; want = want & (p.x >= 0) & (p.x <= 1) & Fin(p.y); if (i) want = want & (l.points[i - 1].x <= p.x); l.points.push_back(p); } __vp_assert(Ok({l}) == want, "linear points"); }
VP_ENTRY(b01_linear) { Lin(__vp_concretize(__vp_range("n", 0, 3))); __vp_reach("end"); }
VP_ENTRY_T(b01_linear4) { Lin(4); __vp_reach("end"); }
VP_ENTRY(b01_equality) {
  float a = __vp_f32("x1"), b = __vp_f32("y1"), c = __vp_f32("x2"), d = __vp_f32("y2"), e = __vp_f32("e"); int k = __vp_concretize(__vp_range("k", 0, 3)); float v[4] = {a, b, c, d}; v[k] = e; float o[4] = {a, b, c, d};
  bool same = (v[0] == a) & (v[1] == b) & (v[2] == c) & (v[3] == d); EF x{EF::CubicBezier{a, b, c, d}}, y{EF::CubicBezier{v[0], v[1], v[2], v[3]}}; __vp_assert((x == y) == same, "cubic equality"); __vp_assert((x != y) == !same, "cubic inequality");
  EF l{EF::Linear{{{a, b}, {c, d}}}}, m{EF::Linear{{{v[0], v[1]}, {v[2], v[3]}}}}; __vp_assert((l == m) == same, "linear equality"); __vp_assert(!(l == x), "kinds differ"); __vp_assert(!(l == EF{EF::Linear{{{a, b}}}}), "lengths differ");
  int n = __vp_i32("n"), q = __vp_i32("q"); EF s{EF::Steps{n, EF::StepPosition::kJumpEnd}}, t{EF::Steps{q, EF::StepPosition::kJumpEnd}}; __vp_assert((s == t) == (n == q), "step equality"); __vp_assert(!(s == EF{EF::Steps{n, EF::StepPosition::kJumpNone}}), "step position differs"); (void)o; __vp_reach("end");
}
