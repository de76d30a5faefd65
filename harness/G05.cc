// SRC: ink/geometry/quad.cc
// SRC: ink/geometry/rect.cc
// SRC: ink/geometry/segment.cc
// SRC: ink/geometry/vec.cc
// SRC: ink/geometry/angle.cc
// BOUND: every float width, height, shear and every finite rotation in set/query sequences of length 2 (quick) or 3 (thorough); corners, containment and joins of unrotated quads with dyadic parameters; corners, axes, containment and joins of rotated and sheared quads for 8 (joins: 4) angles, shears -1 to 1.5, within 1e-4
// ASSUME: libm sin and cos constrained to [-1,1], NaN exactly for non-finite arguments, equal arguments give equal results; fmod exact
#include <cmath>
#include "ink/geometry/angle.h"
#include "ink/geometry/quad.h"
#include "vp.h"
using ink::Angle; using ink::Point; using ink::Quad; using ink::Rect; using ink::Segment; using ink::Vec;
namespace {
float Fin(const char* n) { float x = __vp_f32(n); __vp_assume(std::isfinite(x)); return x; }
constexpr float kTwoPi = 6.28318530717958647692f, kPi = 3.14159265358979323846f;
bool RotationOk(const Quad& q) { float r = q.Rotation().ValueInRadians(); return (r >= 0) & (r < kTwoPi); }
bool SameV(Vec a, Vec b) { return vp::same(a.x, b.x) & vp::same(a.y, b.y); }
// The reference is a quad built afresh from the current values.
void Fresh(const Quad& q) {
  auto a = q.SemiAxes();
  Quad f = Quad::FromCenterDimensionsRotationAndShear(q.Center(), q.Width(), q.Height(), q.Rotation(), q.ShearFactor());
  __vp_assert(f.Rotation() == q.Rotation(), "rebuilding keeps the rotation");
  auto b = f.SemiAxes();
  __vp_assert(SameV(a.first, b.first), "first semi-axis is current");
  __vp_assert(SameV(a.second, b.second), "second semi-axis is current");
}
void Step(Quad& q) {
  float w = q.Width(), h = q.Height(), r = q.Rotation().ValueInRadians(), s = q.ShearFactor(); Point c = q.Center();
  switch (__vp_concretize(__vp_range("op", 0, 5))) {
    case 0: { float v = Fin("width"); q.SetWidth(v); __vp_assert(q.Width() == std::fabs(v), "width is the magnitude");
      __vp_assert(v < 0 ? q.Height() == -h : q.Height() == h, "height flips with a negative width"); w = q.Width(); h = q.Height(); if (v < 0) r = q.Rotation().ValueInRadians(); __vp_reach("width"); break; }
    case 1: { float v = Fin("height"); q.SetHeight(v); __vp_assert(q.Height() == v, "height set"); h = v; __vp_reach("height"); break; }
    case 2: { float v = __vp_f32_range("rotation", 0, 6.2831f); q.SetRotation(Angle::Radians(v)); if (v >= 0 && v < kTwoPi) __vp_assert(q.Rotation().ValueInRadians() == v, "rotation set"); r = q.Rotation().ValueInRadians(); __vp_reach("rotation"); break; }
    case 3: { float v = Fin("shear"); q.SetShearFactor(v); __vp_assert(q.ShearFactor() == v, "shear set"); s = v; __vp_reach("shear"); break; }
    case 4: { Point p{Fin("x"), Fin("y")}; q.SetCenter(p); __vp_assert(q.Center() == p, "center set"); c = p; __vp_reach("center"); break; }
    default: q.SemiAxes(); __vp_reach("query"); break;
  }
  __vp_assert(q.Width() >= 0, "non-negative width"); __vp_assert(RotationOk(q), "rotation in [0, 2pi)");
  __vp_assert((q.Width() == w) & (q.Height() == h) & (q.Rotation().ValueInRadians() == r) & (q.ShearFactor() == s) & (q.Center() == c), "other parameters are untouched");
}
Quad Start() {
  float r = __vp_f32_range("r0", 0, 6.2831f); float w = Fin("w0"); __vp_assume(w >= 0);
  return Quad::FromCenterDimensionsRotationAndShear({Fin("x0"), Fin("y0")}, w, Fin("h0"), Angle::Radians(r), Fin("s0"));
}
}  // namespace
VP_ENTRY(g05_construct) {
  float w = Fin("w"), h = Fin("h"), r = Fin("r"), s = Fin("s"); Point c{Fin("cx"), Fin("cy")};
  Quad q = Quad::FromCenterDimensionsRotationAndShear(c, w, h, Angle::Radians(r), s);
  __vp_assert(q.Width() == std::fabs(w), "width magnitude"); __vp_assert(q.Height() == (w < 0 ? -h : h), "height"); __vp_assert(q.ShearFactor() == s && q.Center() == c, "shear and center");
  __vp_assert(RotationOk(q), "rotation in [0, 2pi)");
  if (w >= 0 && r >= 0 && r < kTwoPi) __vp_assert(q.Rotation().ValueInRadians() == r, "normalized rotation kept");
  if (w < 0 && r >= 0 && r < 3) __vp_assert(q.Rotation().ValueInRadians() == r + kPi, "negative width turns by pi");
  __vp_reach("end");
}
VP_ENTRY(g05_factories) {
  float w = Fin("w"), h = Fin("h"), r = Fin("r"); Point c{Fin("cx"), Fin("cy")}; __vp_assume(w >= 0 && r >= 0 && r < kTwoPi);
  Quad q = Quad::FromCenterDimensionsAndRotation(c, w, h, Angle::Radians(r));
  __vp_assert(q.Center() == c && q.Width() == w && q.Height() == h && q.Rotation().ValueInRadians() == r && q.ShearFactor() == 0 && q.IsRectangular(), "unsheared");
  Quad p = Quad::FromCenterAndDimensions(c, w, h);
  __vp_assert(p.Center() == c && p.Width() == w && p.Height() == h && p.Rotation().ValueInRadians() == 0 && p.ShearFactor() == 0 && p.IsAxisAligned(), "axis aligned");
  __vp_assert((p == q) == (r == 0) && (p != q) == (r != 0), "equality");
  Rect e = Rect::FromTwoPoints(c, {w, h}); Quad f = Quad::FromRect(e);
  __vp_assert(f.Center() == e.Center() && f.Width() == e.Width() && f.Height() == e.Height() && f.Rotation() == Angle() && f.ShearFactor() == 0, "from a rectangle");
  Quad d; __vp_assert(d.Center() == Point{0, 0} && d.Width() == 0 && d.Height() == 0 && d.Rotation() == Angle() && d.ShearFactor() == 0, "default quad");
  __vp_reach("end");
}
VP_ENTRY(g05_equality) {
  Quad a = Start(), b = Start();
  bool same = (a.Center().x == b.Center().x) & (a.Center().y == b.Center().y) & (a.Width() == b.Width()) & (a.Height() == b.Height()) & (a.Rotation().ValueInRadians() == b.Rotation().ValueInRadians()) & (a.ShearFactor() == b.ShearFactor());
  __vp_assert((a == b) == same && (a != b) == !same, "equal exactly when all parameters are"); __vp_reach("end");
}
VP_ENTRY(g05_rotation) {  // any finite rotation is normalized, whatever was queried before
  float a = Fin("a"), b = Fin("b"); Quad q = Quad::FromCenterDimensionsAndRotation({1, 2}, 3, 4, Angle::Radians(a)); q.SemiAxes();
  q.SetRotation(Angle::Radians(b)); __vp_assert(RotationOk(q), "rotation in [0, 2pi)"); if (b >= 0 && b < kTwoPi) __vp_assert(q.Rotation().ValueInRadians() == b, "normalized rotation kept");
  q.SetWidth(-2); __vp_assert(RotationOk(q), "rotation in [0, 2pi)"); __vp_reach("end");
}
VP_ENTRY(g05_history) { Quad q = Start(); q.SemiAxes(); Step(q); Fresh(q); }
VP_ENTRY_T(g05_history2) { Quad q = Start(); q.SemiAxes(); Step(q); Step(q); Fresh(q); }
VP_ENTRY(g05_copies) { Quad q = Start(); q.SemiAxes(); Quad c = q; float v = Fin("v"); c.SetHeight(v); Fresh(c); Fresh(q); Quad d; d.SemiAxes(); d = q; Fresh(d); __vp_reach("end"); }
// Unrotated dyadic quads: corners, containment and joins are exact.
namespace {
float G(const char* n) { return static_cast<float>(__vp_range(n, -256, 255)) * 0.25f; }
Quad Grid() { return Quad::FromCenterDimensionsRotationAndShear({G("cx"), G("cy")}, static_cast<float>(__vp_range("w", 0, 255)) * 0.25f, G("h"), Angle(), 0.5f * static_cast<float>(static_cast<int>(__vp_concretize(__vp_range("shear", -1, 2))))); }
bool Inside(const Quad& q, Point p) { float dx = p.x - q.Center().x, dy = p.y - q.Center().y; return (std::fabs(dy) <= 0.5f * std::fabs(q.Height())) & (std::fabs(dx - q.ShearFactor() * dy) <= 0.5f * q.Width()); }
}
VP_ENTRY(g05_corners) {
  Quad q = Grid(); auto c = q.Corners(); float x = q.Center().x, y = q.Center().y, u = 0.5f * q.Width(), vy = 0.5f * q.Height(), vx = q.ShearFactor() * vy;
  __vp_assert(c[0] == Point{x - u - vx, y - vy} && c[1] == Point{x + u - vx, y - vy} && c[2] == Point{x + u + vx, y + vy} && c[3] == Point{x - u + vx, y + vy}, "corner order and position");
  int k = __vp_concretize(__vp_range("edge", 0, 3)); Segment e = q.GetEdge(k); __vp_assert(e.start == c[k] && e.end == c[(k + 1) % 4], "edges join neighbouring corners");
  __vp_assert(q.SignedArea() == q.Width() * q.Height(), "signed area"); if (q.Height() != 0) __vp_assert(q.AspectRatio() == q.Width() / q.Height(), "aspect ratio"); __vp_reach("end");
}
VP_ENTRY(g05_half_turn_corners) {  // a negative width is the same set of corners, turned by pi
  float w = static_cast<float>(__vp_range("w", 1, 15)), h = static_cast<float>(__vp_range("h", -8, 7));
  auto p = Quad::FromCenterAndDimensions({0, 0}, w, h).Corners(), n = Quad::FromCenterAndDimensions({0, 0}, -w, h).Corners();
  int i = __vp_concretize(__vp_range("corner", 0, 3)); Point t = n[i ^ 1]; __vp_assert(std::fabs(p[i].x - t.x) < 0.01f && std::fabs(p[i].y - t.y) < 0.01f, "same parallelogram");
  __vp_reach("end");
}
VP_ENTRY(g05_edge_bad) { Quad q = Start(); int k = __vp_i32("edge"); __vp_assume(k < 0 || k > 3); __vp_expect_check_fail(); q.GetEdge(k); __vp_assert(false, "edge index out of range must fail"); }
VP_ENTRY(g05_contains) { Quad q = Grid(); Point p{G("px"), G("py")}; __vp_assert(q.Contains(p) == Inside(q, p), "containment is the closed parallelogram"); __vp_reach("end"); }
namespace {
struct Case { Quad q; Point p; };
Case JoinCase(int lo, int hi) {  // split on where the point lies relative to the quad
  auto g = [](const char* n) { return static_cast<float>(__vp_range(n, -32, 31)) * 0.25f; };
  Quad q = Quad::FromCenterDimensionsRotationAndShear({g("cx"), g("cy")}, static_cast<float>(__vp_range("w", 0, 63)) * 0.25f, g("h"), Angle(), 0.5f * static_cast<float>(static_cast<int>(__vp_concretize(__vp_range("shear", lo, hi)))));
  Point p{g("px"), g("py")}; float dy = p.y - q.Center().y, du = p.x - q.Center().x - q.ShearFactor() * dy;
  if (dy < 0) __vp_reach("below"); else __vp_reach("above");
  if (du < 0) __vp_reach("left"); else __vp_reach("right");
  if (std::fabs(dy) > 0.5f * std::fabs(q.Height())) __vp_reach("outside height"); else __vp_reach("within height");
  if (std::fabs(du) > 0.5f * q.Width()) __vp_reach("outside width"); else __vp_reach("within width");
  if (q.Height() < 0) __vp_reach("negative height");
  return {q, p};
}
}
VP_ENTRY(g05_join) {
  Case c0 = JoinCase(-1, 2); Quad q = c0.q, o = q; Point p = c0.p; q.SemiAxes(); q.Join(p);
  float dx = p.x - o.Center().x, dy = p.y - o.Center().y, a = std::fabs(dx - o.ShearFactor() * dy), b = std::fabs(dy), hw = 0.5f * o.Width(), hh = 0.5f * std::fabs(o.Height());
  __vp_assert(q.Rotation() == o.Rotation() && q.ShearFactor() == o.ShearFactor(), "rotation and shear kept");
  __vp_assert(q.Width() == (a > hw ? a + hw : o.Width()), "width just reaches the point"); __vp_assert(std::fabs(q.Height()) == (b > hh ? b + hh : 2 * hh), "height just reaches the point");
  __vp_assert(Inside(q, p), "contains the joined point"); __vp_reach("end");
}
static void JoinKeeps(int lo, int hi) {
  Case c0 = JoinCase(lo, hi); Quad q = c0.q, o = q; Point p = c0.p; auto c = o.Corners(); q.SemiAxes(); q.Join(p);
  int k = __vp_concretize(__vp_range("corner", 0, 3)); __vp_assert(Inside(q, c[k]), "contains the former corners");
  auto n = q.Corners(); float u = 0.5f * q.Width(), vy = 0.5f * q.Height(), vx = q.ShearFactor() * vy; __vp_assert(n[0] == Point{q.Center().x - u - vx, q.Center().y - vy}, "corners are fresh after joining"); __vp_reach("end");
}
VP_ENTRY(g05_join_keeps) { JoinKeeps(0, 1); }
VP_ENTRY_T(g05_join_keeps_t) { JoinKeeps(-1, 2); }
// rotated and sheared: corners and axes against a double precision reference
static void Oblique(int i) {
  static const float rot[8] = {0.5f, 1.25f, 2, 2.75f, 3.5f, 4.25f, 5, 6}; float s = static_cast<float>(static_cast<int>(__vp_concretize(__vp_range("s", -2, 3)))) * 0.5f, h = static_cast<float>(static_cast<int>(__vp_concretize(__vp_range("h", -3, 3)))), w = static_cast<float>(__vp_range("w", 0, 31)) * 0.25f; Quad q = Quad::FromCenterDimensionsRotationAndShear({1, -2}, w, h, Angle::Radians(rot[i]), s);
  double c = std::cos((double)rot[i]), n = std::sin((double)rot[i]), ux = 0.5 * w * c, uy = 0.5 * w * n, vx = 0.5 * h * (s * c - n), vy = 0.5 * h * (s * n + c); auto near = [](double x, double y, float a, float b) { return (std::fabs(x - a) < 1e-4) & (std::fabs(y - b) < 1e-4); };
  auto a = q.SemiAxes(); __vp_assert(near(ux, uy, a.first.x, a.first.y) & near(vx, vy, a.second.x, a.second.y), "semi-axes"); auto p = q.Corners(); __vp_assert(near(1 - ux - vx, -2 - uy - vy, p[0].x, p[0].y) & near(1 + ux - vx, -2 + uy - vy, p[1].x, p[1].y) & near(1 + ux + vx, -2 + uy + vy, p[2].x, p[2].y) & near(1 - ux + vx, -2 - uy + vy, p[3].x, p[3].y), "corners");
  // points well inside and well outside
  if (h != 0) { float k = static_cast<float>(__vp_concretize(__vp_range("k", 0, 3))); double f = k < 2 ? 0.9 : 1.1, x = (k == 1 || k == 3) ? 0.3 : f, y = (k == 1 || k == 3) ? f : -0.3; if (w >= 0.25f) __vp_assert(q.Contains(Point{(float)(1 + x * ux + y * vx), (float)(-2 + x * uy + y * vy)}) == (f < 1), "contains what is inside of the parallelogram"); }
  __vp_reach("end");
}
VP_ENTRY_T(g05_oblique0) { Oblique(0); }
VP_ENTRY(g05_oblique1) { Oblique(1); }
VP_ENTRY_T(g05_oblique2) { Oblique(2); }
VP_ENTRY(g05_oblique3) { Oblique(3); }
VP_ENTRY_T(g05_oblique4) { Oblique(4); }
VP_ENTRY(g05_oblique5) { Oblique(5); }
VP_ENTRY_T(g05_oblique6) { Oblique(6); }
VP_ENTRY(g05_oblique7) { Oblique(7); }
static void ObliqueJoin(int i) {
  static const float rot[4] = {0.5f, 2, 3.5f, 5}; float s = static_cast<float>(static_cast<int>(__vp_concretize(__vp_range("s", -2, 2)))) * 0.5f, h = static_cast<float>(static_cast<int>(__vp_concretize(__vp_range("h", -1, 1)))) * 2, w = static_cast<float>(__vp_concretize(__vp_range("w", 0, 1))) * 3; Quad q = Quad::FromCenterDimensionsRotationAndShear({1, -2}, w, h, Angle::Radians(rot[i]), s); q.SemiAxes(); float px = static_cast<float>(__vp_range("px", -16, 15)) * 0.5f + 0.125f, py = static_cast<float>(static_cast<int>(__vp_concretize(__vp_range("py", -2, 2)))) * 2 + 0.375f; q.Join({px, py});
  double c = std::cos((double)rot[i]), n = std::sin((double)rot[i]), dx = px - 1.0, dy = py + 2.0, b = c * dy - n * dx, a = c * dx + n * dy - s * b, W = std::fmax(w, w / 2.0 + std::fabs(a)), H = std::fmax(std::fabs(h), std::fabs(h) / 2.0 + std::fabs(b)), e = (a < 0 ? -1 : 1) * 0.5 * (W - w), f = (b < 0 ? -1 : 1) * 0.5 * (H - std::fabs(h)), x = 1 + e * c + f * (s * c - n), y = -2 + e * n + f * (s * n + c);
  __vp_assert((std::fabs(q.Width() - W) < 1e-4) & (std::fabs(std::fabs(q.Height()) - H) < 1e-4) & (std::signbit(q.Height()) == std::signbit(h)), "grows just enough"); __vp_assert((std::fabs(q.Center().x - x) < 1e-4) & (std::fabs(q.Center().y - y) < 1e-4), "grows towards the point only"); __vp_assert((q.Rotation().ValueInRadians() == rot[i]) & (q.ShearFactor() == s), "rotation and shear kept"); __vp_reach("end");
}
VP_ENTRY(g05_oblique_join0) { ObliqueJoin(0); }
VP_ENTRY(g05_oblique_join1) { ObliqueJoin(1); }
VP_ENTRY_T(g05_oblique_join2) { ObliqueJoin(2); }
VP_ENTRY_T(g05_oblique_join3) { ObliqueJoin(3); }
