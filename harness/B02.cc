// SRC: ink/strokes/internal/easing_implementation.cc ink/brush/easing_function.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/envelope.cc
// OPT: budget=120
// BOUND: step functions with 1, 2, 3, 5, 8, 100 and 2^31-1 steps and all four step positions, all float inputs
// BOUND: piecewise-linear functions with 1 to 3 points: x values and evaluation points on a 1/8 (1 point), 1/4 (2 points) or 1/2 (3 points) grid and half-way points, any integer heights in [-8,8]; safety for all floats
// BOUND: the four predefined cubic Bezier curves for all float inputs; custom curves: (0.3,y1,0.7,y2) with all floats |y|<=10 and all inputs, all finite y for (0.25,y1,0.75,y2); thorough: 16 pairs of x values and |y|<=1000 for four of them
// BOUND: agreement with the true Bezier curve: 40 and 14 evaluation points of the predefined curves; the 14 table points with the x values of the predefined curves and all control heights on a 1/2 grid in [-4,4]
#include <cmath>

#include "ink/strokes/internal/easing_implementation.h"
#include "vp.h"
using namespace ink; typedef EasingFunction EF; typedef EF::StepPosition SP; using strokes_internal::EasingImplementation;
static bool Fin(float x) { return (x - x) == 0; }
VP_ENTRY(b02_identity) { float x = __vp_f32("x"); EasingImplementation e(EF{EF::Predefined::kLinear}); __vp_assert(__vp_same(e.GetY(x), x), "identity"); EasingImplementation l(EF{EF::Linear{}}); if (Fin(x)) __vp_assert(l.GetY(x) == x, "empty linear is the identity"); __vp_reach("end"); }
VP_ENTRY(b02_predefined_steps) { float x = __vp_f32("x"); float s = EasingImplementation(EF{EF::Predefined::kStepStart}).GetY(x), t = EasingImplementation(EF{EF::Predefined::kStepEnd}).GetY(x); if (x == x) { __vp_assert(s == (x < 0 ? 0 : 1), "step start"); __vp_assert(t == (x < 1 ? 0 : 1), "step end"); } __vp_reach("end"); }
static double Height(SP p, int n, int j) { switch (p) { case SP::kJumpEnd: return j / (double)n; case SP::kJumpStart: return (j + 1) / (double)n; case SP::kJumpBoth: return (j + 1) / (double)(n + 1); default: return j / (double)(n - 1); } }
static void Steps(int n, SP p) {
  float x = __vp_f32("x"); EasingImplementation e(EF{EF::Steps{n, p}}); float y = e.GetY(x); if (!(x == x)) { __vp_reach("nan"); return; }
  if (x < 0) __vp_assert(y == 0, "0 before the interval"); else if (x >= 1) __vp_assert(y == 1, "1 from the end of the interval"); else { __vp_assert((y >= 0) & (y <= 1 + 2e-7f), "heights stay in [0,1]"); bool ok = true; for (int j = 0; j < n && n < 10; j++) { float lo = (j + 2e-6f) / n, hi = (j + 1 - 2e-6f) / n; float h = Height(p, n, j); ok = ok & (!((x >= lo) & (x <= hi)) | ((y - h <= 3e-7f) & (h - y <= 3e-7f))); } __vp_assert(ok, "documented step height"); }
  __vp_reach("end");
}
VP_ENTRY(b02_steps) { static const int kN[] = {1, 2, 3, 5, 8, 100, 2147483647}; int n = kN[__vp_concretize(__vp_range("n", 0, 6))]; SP p = (SP)__vp_concretize(__vp_range("p", 0, 3)); if (n == 1 && p == SP::kJumpNone) return; Steps(n, p); }
VP_ENTRY(b02_steps_exact) { // jump positions of power-of-two step counts are exact
  int k = __vp_concretize(__vp_range("k", 0, 5)), n = 1 << k; SP p = (SP)__vp_concretize(__vp_range("p", 0, 2)); int j = __vp_range("j", 0, 31); __vp_assume(j < n); float x = j * (1.0f / 32) * (32 / n); float y = EasingImplementation(EF{EF::Steps{n, p}}).GetY(x); if (p == SP::kJumpEnd) __vp_assert(y == j * (1.0f / 32) * (32 / n), "height at a jump"); else if (p == SP::kJumpStart) __vp_assert(y == (j + 1) * (1.0f / 32) * (32 / n), "height at a jump (start)"); else __vp_assert((y > 0) & (y < 1), "both ends jump"); __vp_reach("end");
}
static const char* kX[] = {"x0", "x1", "x2"}; static const char* kY[] = {"y0", "y1", "y2"};
static void LinearAt(int n, int shift) { // all x values concrete (so that the heights stay linear), heights symbolic
  int m = 1 << shift; EF::Linear l; for (int i = 0; i < n; i++) { int xi = __vp_range(kX[i], 0, m); float px = (float)__vp_concretize(xi) / m; if (i && l.points[i - 1].x > px) return; l.points.push_back({px, vp::grid(kY[i], -8, 8, 0)}); }
  EasingImplementation e(EF{l}); float x = (float)__vp_concretize(__vp_range("x", -1, 2 * m + 1)) / (2 * m);
  // the function passes through the last of the points with this x, (0,0) being first and (1,1) last
  float want = 0; bool at = x == 0; for (auto& p : l.points) { bool h = p.x == x; want = h ? p.y : want; at = at | h; } if (x == 1) { want = 1; at = true; }
  float y = vp::merged([&] { return e.GetY(x); }); if (at) __vp_assert(y == want, "passes through its points");
  // between two neighbouring points it is the straight line
  float ly = 0, hy = 1, lx = 0, hx = 1; for (auto& p : l.points) { bool c = p.x <= x; ly = c ? p.y : ly; lx = c ? p.x : lx; } for (int i = n - 1; i >= 0; i--) { bool c = l.points[i].x > x; hy = c ? l.points[i].y : hy; hx = c ? l.points[i].x : hx; }
  if ((x > lx) & (x < hx)) { float w = (x - lx) / (hx - lx), line = (1 - w) * ly + w * hy; __vp_assert((y - line <= 1e-5f) & (line - y <= 1e-5f), "straight line between neighbouring points"); }
  __vp_reach("end");
}
VP_ENTRY(b02_linear1) { LinearAt(1, 3); }
VP_ENTRY(b02_linear2) { LinearAt(2, 2); }
VP_ENTRY(b02_linear3) { LinearAt(3, 1); }
VP_ENTRY_T(b02_linear3_fine) { LinearAt(3, 2); }
VP_ENTRY(b02_linear_any_input) { int n = __vp_concretize(__vp_range("n", 1, 3)); EF::Linear l; float last = 0; for (int i = 0; i < n; i++) { Point p = {__vp_f32_range(kX[i], 0, 1), __vp_f32_range(kY[i], -3e38f, 3e38f)}; if (i) __vp_assume(last <= p.x); last = p.x; l.points.push_back(p); } EasingImplementation e(EF{l}); float x = __vp_f32("x"); float y = e.GetY(x); if (x != x) __vp_assert(y != y, "NaN gives NaN"); __vp_reach("end"); }
static void Input(const EasingImplementation& e, float at0, float at1) { float x = __vp_f32("x"); float y = e.GetY(x); if (x != x) { __vp_assert(y != y, "NaN gives NaN"); __vp_reach("nan"); return; } if (x <= 0) __vp_assert(y == at0, "clamped below"); if (x >= 1) __vp_assert(y == at1, "clamped above"); __vp_assert(Fin(y), "finite result"); __vp_reach("end"); }
VP_ENTRY(b02_predefined_cubic) { EasingImplementation e(EF{(EF::Predefined)__vp_concretize(__vp_range("k", (int)EF::Predefined::kEase, (int)EF::Predefined::kEaseInOut))}); float a = e.GetY(0), b = e.GetY(1); __vp_assert((a >= -1e-4f) & (a <= 1e-4f) & (b >= 1 - 1e-4f) & (b <= 1 + 1e-4f), "passes through (0,0) and (1,1)"); Input(e, a, b); }
VP_ENTRY(b02_predefined_monotone) { EasingImplementation e(EF{(EF::Predefined)__vp_concretize(__vp_range("k", (int)EF::Predefined::kEase, (int)EF::Predefined::kEaseInOut))}); float x = __vp_f32_range("x", 0, 1); float y = e.GetY(x); __vp_assert((y >= -1e-4f) & (y <= 1 + 1e-4f), "predefined curves stay in [0,1]"); __vp_reach("end"); }
static void Cubic(float x1, float x2, float m) {
  float y1 = __vp_f32_range("y1", -m, m), y2 = __vp_f32_range("y2", -m, m); EasingImplementation e(EF{EF::CubicBezier{x1, y1, x2, y2}}); float a = e.GetY(0), b = e.GetY(1); __vp_assert((a >= -0.05f) & (a <= 0.05f), "starts at 0"); __vp_assert((b >= 0.95f) & (b <= 1.05f), "ends at 1");
  float x = __vp_f32("x"); if (!(x > 0 & x < 1)) { float y = e.GetY(x); if (x <= 0) __vp_assert(y == a, "clamped below"); if (x >= 1) __vp_assert(y == b, "clamped above"); if (x != x) __vp_assert(y != y, "NaN gives NaN"); __vp_reach("outside"); return; }
  int k = __vp_concretize(__vp_range("k", 0, 13)); float u = __vp_f32_range("u", k / 14.f, (k + 1) / 14.f); float y = vp::merged([&] { return e.GetY(u); }); __vp_assert(Fin(y), "finite result"); __vp_reach("inside");
}
static const float kV[] = {0, 0.3f, 0.7f, 1};
VP_ENTRY(b02_cubic) { Cubic(0.3f, 0.7f, 10); }
VP_ENTRY_T(b02_cubic_diag) { int k = __vp_concretize(__vp_range("i", 0, 3)); Cubic(kV[k], kV[(3 * k + 1) % 4], 1000); }
VP_ENTRY_T(b02_cubic_pairs) { float x1 = kV[__vp_concretize(__vp_range("i", 0, 3))]; Cubic(x1, kV[__vp_concretize(__vp_range("j", 0, 3))], 10); }
VP_ENTRY(b02_cubic_huge) { float y1 = __vp_f32("y1"), y2 = __vp_f32("y2"); __vp_assume(Fin(y1) & Fin(y2)); EasingImplementation e(EF{EF::CubicBezier{0.25f, y1, 0.75f, y2}}); float x = __vp_f32("x"); (void)e.GetY(x); __vp_reach("end"); }

// the true curve: at the parameter t with X(t) = x (found by bisection, x concrete), GetY(x) is Y(t), linear in the control heights
static void True(EF fn, double x1, double y1, double x2, double y2, int m, double tol) { double x = __vp_concretize(__vp_range("x", 0, m)) / (double)m, lo = 0, hi = 1; for (int i = 0; i < 45; i++) { double t = (lo + hi) / 2, v = 3 * t * (1 - t) * (1 - t) * x1 + 3 * t * t * (1 - t) * x2 + t * t * t; if (v < x) lo = t; else hi = t; } double t = (lo + hi) / 2, a = 3 * t * (1 - t) * (1 - t), b = 3 * t * t * (1 - t); EasingImplementation e(fn); float y = vp::merged([&] { return e.GetY((float)x); }); double want = a * y1 + b * y2 + t * t * t; __vp_assert((y - want <= tol) & (want - y <= tol), "lies on the Bezier curve"); __vp_reach("end"); }
static const float kC[][4] = {{.25f, .1f, .25f, 1}, {.42f, 0, 1, 1}, {0, 0, .58f, 1}, {.42f, 0, .58f, 1}};
static const EF::Predefined kP[] = {EF::Predefined::kEase, EF::Predefined::kEaseIn, EF::Predefined::kEaseOut, EF::Predefined::kEaseInOut};
VP_ENTRY(b02_predefined_curve) { int k = __vp_concretize(__vp_range("k", 0, 3)); const float* c = kC[k]; True(EF{kP[k]}, c[0], c[1], c[2], c[3], 39, 1.5e-2); }
VP_ENTRY(b02_predefined_table) { int k = __vp_concretize(__vp_range("k", 0, 3)); const float* c = kC[k]; True(EF{kP[k]}, c[0], c[1], c[2], c[3], 13, 1e-3); }
VP_ENTRY(b02_cubic_curve) { const float* c = kC[__vp_concretize(__vp_range("i", 0, 3))]; float y1 = vp::grid("y1", -4, 4, 1), y2 = vp::grid("y2", -4, 4, 1); True(EF{EF::CubicBezier{c[0], y1, c[2], y2}}, c[0], y1, c[2], y2, 13, 1e-2); }
