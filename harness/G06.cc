// SRC: ink/geometry/affine_transform.cc
// SRC: ink/geometry/quad.cc
// SRC: ink/geometry/rect.cc
// SRC: ink/geometry/segment.cc
// SRC: ink/geometry/triangle.cc
// SRC: ink/geometry/vec.cc
// SRC: ink/geometry/angle.cc
// BOUND: factories: every float; products and application: integer coefficients and coordinates in [-64,63] (exact in float); inverse: linear parts with entries in [-2,2], offsets in [-512,511]; found transforms: 10 source triangle shapes, source rectangles with power-of-two sides, symbolic integer targets; quads and segments: fixed linear parts and directions with symbolic integer positions
// ASSUME: libm sin and cos constrained by their documented ranges on symbolic arguments, host libm on concrete arguments; coincidence up to 0.01 where libm is involved
#include <cmath>
#include <optional>
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
#include "vp.h"
using ink::AffineTransform; using ink::Angle; using ink::Point; using ink::Quad; using ink::Rect; using ink::Segment; using ink::Triangle; using ink::Vec;
namespace {
float I(const char* n, int lo, int hi) { return static_cast<float>(__vp_range(n, lo, hi)); }
float C(const char* n, int lo, int hi) { return static_cast<float>(static_cast<int>(__vp_concretize(__vp_range(n, lo, hi)))); }
bool Is(const AffineTransform& t, float a, float b, float c, float d, float e, float f) { return vp::same(t.A(), a) & vp::same(t.B(), b) & vp::same(t.C(), c) & vp::same(t.D(), d) & vp::same(t.E(), e) & vp::same(t.F(), f); }
bool Eq(const AffineTransform& t, float a, float b, float c, float d, float e, float f) { return (t.A() == a) & (t.B() == b) & (t.C() == c) & (t.D() == d) & (t.E() == e) & (t.F() == f); }
bool Near(Point p, Point q) { return (p.x - q.x <= 0.01f) & (q.x - p.x <= 0.01f) & (p.y - q.y <= 0.01f) & (q.y - p.y <= 0.01f); }
AffineTransform T(int m) { return {I("a", -m, m - 1), I("b", -m, m - 1), I("c", -m, m - 1), I("d", -m, m - 1), I("e", -m, m - 1), I("f", -m, m - 1)}; }
}
VP_ENTRY(g06_factories) {
  float a = __vp_f32("a"), b = __vp_f32("b"), c = __vp_f32("c"), d = __vp_f32("d"), e = __vp_f32("e"), f = __vp_f32("f");
  __vp_assert(Is(AffineTransform(a, b, c, d, e, f), a, b, c, d, e, f), "coefficients");
  __vp_assert(Is(AffineTransform(), 1, 0, 0, 0, 1, 0) && Is(AffineTransform::Identity(), 1, 0, 0, 0, 1, 0), "identity");
  __vp_assert(Is(AffineTransform::Translate({a, b}), 1, 0, a, 0, 1, b), "translate");
  __vp_assert(Is(AffineTransform::Scale(a), a, 0, 0, 0, a, 0) && Is(AffineTransform::Scale(a, b), a, 0, 0, 0, b, 0) && Is(AffineTransform::ScaleX(a), a, 0, 0, 0, 1, 0) && Is(AffineTransform::ScaleY(a), 1, 0, 0, 0, a, 0), "scale");
  __vp_assert(Is(AffineTransform::ShearX(a), 1, a, 0, 0, 1, 0) && Is(AffineTransform::ShearY(a), 1, 0, 0, a, 1, 0), "shear");
  __vp_assert(Is(AffineTransform::Rotate(Angle::Radians(a)), std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0), "rotate");
  AffineTransform t(a, b, c, d, e, f), u; u = t; __vp_assert(Is(u, a, b, c, d, e, f), "copies"); __vp_reach("end");
}
VP_ENTRY(g06_about_point) {
  float x = I("x", -256, 255), y = I("y", -256, 255), s = I("s", -32, 31) * 0.25f, t = I("t", -32, 31) * 0.25f;
  __vp_assert(Eq(AffineTransform::ScaleAboutPoint(s, {x, y}), s, 0, x - s * x, 0, s, y - s * y), "scale about a point");
  __vp_assert(Eq(AffineTransform::ScaleAboutPoint(s, t, {x, y}), s, 0, x - s * x, 0, t, y - t * y), "two scales about a point");
  __vp_assert(AffineTransform::ScaleAboutPoint(s, {x, y}).Apply(Point{x, y}) == Point{x, y}, "the center of scaling is fixed");
  __vp_assert(AffineTransform::ScaleAboutPoint(s, t, {x, y}).Apply(Point{x, y}) == Point{x, y}, "the center of scaling is fixed");
  __vp_reach("end");
}
VP_ENTRY(g06_rotate_about) {
  float x = I("x", -8, 7), y = I("y", -8, 7), r = 0.7853981634f * C("eighth", -8, 8), s = std::sin(r), c = std::cos(r);
  AffineTransform t = AffineTransform::RotateAboutPoint(Angle::Radians(r), {x, y});
  __vp_assert((t.A() == c) & (t.B() == -s) & (t.D() == s) & (t.E() == c), "linear part is the rotation");
  __vp_assert(Near(t.Apply(Point{x, y}), {x, y}), "the center of rotation is fixed"); __vp_reach("end");
}
VP_ENTRY(g06_apply) {
  AffineTransform t = T(64); Point p{I("px", -64, 63), I("py", -64, 63)};
  Point q = t.Apply(p);
  __vp_assert(q.x == t.A() * p.x + t.B() * p.y + t.C() && q.y == t.D() * p.x + t.E() * p.y + t.F(), "maps (x, y) to (ax + by + c, dx + ey + f)"); __vp_reach("end");
}
VP_ENTRY(g06_apply_shapes) {
  AffineTransform t = T(64); Point p{I("px", -64, 63), I("py", -64, 63)}, q{I("qx", -64, 63), I("qy", -64, 63)}, r{I("rx", -64, 63), I("ry", -64, 63)};
  Segment s = t.Apply(Segment{p, q}); __vp_assert((s.start == t.Apply(p)) & (s.end == t.Apply(q)), "segment corners");
  Triangle u = t.Apply(Triangle{p, q, r}); __vp_assert((u.p0 == t.Apply(p)) & (u.p1 == t.Apply(q)) & (u.p2 == t.Apply(r)), "triangle corners"); __vp_reach("end");
}
VP_ENTRY(g06_product) {
  AffineTransform s = T(64); AffineTransform t{I("g", -64, 63), I("h", -64, 63), I("i", -64, 63), I("j", -64, 63), I("k", -64, 63), I("l", -64, 63)};
  AffineTransform m = s * t;
  __vp_assert((m.A() == s.A() * t.A() + s.B() * t.D()) & (m.D() == s.D() * t.A() + s.E() * t.D()), "first column");
  __vp_assert((m.B() == s.A() * t.B() + s.B() * t.E()) & (m.E() == s.D() * t.B() + s.E() * t.E()), "second column");
  __vp_assert((m.C() == s.A() * t.C() + s.B() * t.F() + s.C()) & (m.F() == s.D() * t.C() + s.E() * t.F() + s.F()), "third column");
  // An affine map is determined by three points.
  __vp_assert(m.Apply(Point{0, 0}) == s.Apply(t.Apply(Point{0, 0})), "right factor first (origin)"); __vp_reach("end");
}
VP_ENTRY(g06_product_axis) {
  AffineTransform s = T(16); AffineTransform t{I("g", -16, 15), I("h", -16, 15), I("i", -16, 15), I("j", -16, 15), I("k", -16, 15), I("l", -16, 15)};
  Point p = __vp_concretize(__vp_range("axis", 0, 1)) ? Point{0, 1} : Point{1, 0};
  Point a = (s * t).Apply(p), b = s.Apply(t.Apply(p)); __vp_assert(a.x == b.x, "right factor first (x)"); __vp_assert(a.y == b.y, "right factor first (y)"); __vp_reach("end");
}
VP_ENTRY(g06_inverse_exists) {
  AffineTransform t = T(512); std::optional<AffineTransform> i = t.Inverse();
  __vp_assert(i.has_value() == (t.A() * t.E() != t.B() * t.D()), "an inverse exists exactly when the determinant is not zero"); __vp_reach("end");
}
VP_ENTRY(g06_inverse) {
  AffineTransform t{C("a", -2, 2), C("b", -2, 2), I("c", -512, 511), C("d", -2, 2), C("e", -2, 2), I("f", -512, 511)};
  float det = t.A() * t.E() - t.B() * t.D(), n = std::fabs(det); std::optional<AffineTransform> i = t.Inverse();
  __vp_assert(i.has_value() == (det != 0), "an inverse exists exactly when the determinant is not zero");
  if (!i.has_value()) { __vp_reach("none"); return; }
  if (n == 1 || n == 2 || n == 4 || n == 8) {  // exact in float
    __vp_assert(Eq(*i * t, 1, 0, 0, 0, 1, 0), "left inverse"); __vp_assert(Eq(t * *i, 1, 0, 0, 0, 1, 0), "right inverse"); __vp_reach("exact");
  } else { __vp_assert(vp::same(i->A(), t.E() / det) && i->E() == t.A() / det && i->B() == -t.B() / det && i->D() == -t.D() / det, "inverse coefficients"); __vp_reach("inexact"); }
}
namespace {
struct Tri { int x0, y0, x1, y1, x2, y2; };
constexpr Tri kTri[] = {{0, 0, 1, 0, 0, 1}, {0, 0, 0, 2, 2, 0}, {1, 1, 3, 1, 2, 2}, {-1, 0, 1, 2, 1, -2}, {4, 4, 0, 4, 4, 0}, {1, 2, 2, 1, 3, 4}, {-2, -2, 2, -1, -1, 2}, {5, 0, 0, 5, -5, -5}, {3, 1, -1, 0, 0, -2}, {0, 1, -4, 1, 2, -1}, {0, 0, 1, 1, 2, 2}, {1, 1, 1, 1, 3, 4}, {0, 2, 0, 5, 0, 7}};
}
VP_ENTRY(g06_find_triangle) {
  const Tri k = kTri[__vp_concretize(__vp_range("from", 0, 12))]; Triangle f{{(float)k.x0, (float)k.y0}, {(float)k.x1, (float)k.y1}, {(float)k.x2, (float)k.y2}};
  Triangle g{{I("x0", -32, 31), I("y0", -32, 31)}, {I("x1", -32, 31), I("y1", -32, 31)}, {I("x2", -32, 31), I("y2", -32, 31)}};
  auto t = AffineTransform::Find(f, g); int area = (k.x1 - k.x0) * (k.y2 - k.y0) - (k.x2 - k.x0) * (k.y1 - k.y0);
  __vp_assert(t.has_value() == (area != 0), "found exactly when the source triangle has an area");
  if (!t.has_value()) { __vp_reach("degenerate"); return; }
  int n = area < 0 ? -area : area;
  if ((n & (n - 1)) == 0) { Triangle h = t->Apply(f); __vp_assert((h.p0 == g.p0) & (h.p1 == g.p1) & (h.p2 == g.p2), "maps each corner onto the target"); __vp_reach("exact"); }
  else __vp_reach("inexact");
}
VP_ENTRY(g06_find_rect) {
  float w = C("w", 0, 2), h = C("h", 0, 2); w = w == 2 ? 4 : w; float x = C("x", -2, 2), y = C("y", -2, 2); if (__vp_concretize(__vp_range("dir", 0, 1))) { float s = w; w = h; h = s; }
  Rect f = Rect::FromTwoPoints({x, y}, {x + w, y + h}), g = Rect::FromTwoPoints({I("x0", -16, 15), I("y0", -16, 15)}, {I("x1", -16, 15), I("y1", -16, 15)});
  auto t = AffineTransform::Find(f, g); __vp_assert(t.has_value() == (w != 0 && h != 0), "found exactly when the source rectangle has an area");
  if (!t.has_value()) { __vp_reach("degenerate"); return; }
  auto a = f.Corners(), b = g.Corners(); int i = __vp_concretize(__vp_range("corner", 0, 3)); __vp_assert(t->Apply(a[i]) == b[i], "maps the rectangle onto the target"); __vp_reach("found");
}
VP_ENTRY(g06_find_segment) {
  float fx = C("fx", -1, 1), fy = C("fy", -1, 1), tx = 2 * C("tx", -1, 1), ty = C("ty", -1, 1);
  Point a{I("ax", -2, 1), I("ay", -2, 1)}, b{I("bx", -2, 1), I("by", -2, 1)}; Segment f{a, {a.x + fx, a.y + fy}}, g{b, {b.x + tx, b.y + ty}};
  auto t = AffineTransform::Find(f, g); bool fz = (fx == 0) & (fy == 0), gz = (tx == 0) & (ty == 0);
  __vp_assert(t.has_value() == (!fz || gz), "found unless only the source is a point"); if (!t.has_value()) { __vp_reach("none"); return; }
  __vp_assert(Near(t->Apply(a), b), "maps the start onto the target start"); __vp_assert(Near(t->Apply(f.end), g.end), "maps the end onto the target end"); __vp_reach("found");
}
VP_ENTRY(g06_apply_quad) {
  float w = 2, h = C("h", 0, 1) != 0 ? 2.0f : -2.0f, sh = C("shear", 0, 1); Point c{I("cx", -2, 1), I("cy", -2, 1)};
  AffineTransform t{C("a", 0, 1), C("b", 0, 1), I("c", -2, 1), C("d", 0, 1), C("e", -1, 1), I("f", -2, 1)};
  Quad q = Quad::FromCenterDimensionsRotationAndShear(c, w, h, Angle(), sh); auto k = q.Corners(); Quad r = t.Apply(q);
  __vp_assert(r.Center() == t.Apply(c), "center"); bool flat = t.A() * t.E() == t.B() * t.D();
  if (flat) { __vp_reach("singular"); return; }
  auto m = r.Corners(); for (int i = 0; i < 4; ++i) __vp_assert(Near(m[i], t.Apply(k[i])), "each corner is the image of the corner"); __vp_reach("regular");
}
VP_ENTRY(g06_apply_rect) {
  Rect e = Rect::FromTwoPoints({I("x0", -16, 15), I("y0", -16, 15)}, {I("x1", -16, 15), I("y1", -16, 15)}); AffineTransform t{2, 0, I("c", -16, 15), 0, -1, I("f", -16, 15)};
  Quad a = t.Apply(e), b = t.Apply(Quad::FromRect(e)); __vp_assert(a.Center() == t.Apply(e.Center()), "center"); __vp_assert(vp::same(a.Width(), b.Width()) && vp::same(a.Height(), b.Height()) && vp::same(a.ShearFactor(), b.ShearFactor()), "as the quad of the rectangle");
  __vp_reach("end");
}
VP_ENTRY(g06_apply_flat_quad) {  // sides of length 0 keep their direction: the image is that of any quad of the same rotation and shear
  static const float kS[] = {0, 1, -0.5f}; static const float kL[][4] = {{1, 0, 0, 1}, {2, 1, 0, 1}, {1, 1, -1, 1}, {0, 1, 1, 0}, {3, 0, 1, -2}}; float rot = 0.78539816f * __vp_concretize(__vp_range("rot", 0, 7)), sh = kS[__vp_concretize(__vp_range("sh", 0, 2))]; int z = __vp_concretize(__vp_range("z", 0, 2)), m = __vp_concretize(__vp_range("m", 0, 4)); Point c{I("cx", -32, 31), I("cy", -32, 31)};
  AffineTransform t{kL[m][0], kL[m][1], I("tx", -8, 7), kL[m][2], kL[m][3], 3}; float w = z == 1 ? 2 : 0, h = z == 2 ? 4 : 0; Quad q = Quad::FromCenterDimensionsRotationAndShear(c, w, h, Angle::Radians(rot), sh), f = Quad::FromCenterDimensionsRotationAndShear(c, 2, 4, Angle::Radians(rot), sh); Quad r = t.Apply(q), g = t.Apply(f); auto close = [](float x, float y) { return (x - y <= 0.001f) & (y - x <= 0.001f); };
  __vp_assert(r.Center() == t.Apply(c), "center"); __vp_assert(r.Width() == (w == 0 ? 0 : g.Width()), "width"); __vp_assert(r.Height() == (h == 0 ? 0 : g.Height()) || close(r.Height(), g.Height()), "height"); float d = r.Rotation().ValueInRadians() - g.Rotation().ValueInRadians(); __vp_assert(close(d, 0) | close(d, 6.2831855f) | close(d, -6.2831855f), "rotation"); __vp_assert(close(r.ShearFactor(), g.ShearFactor()), "shear"); __vp_reach("end");
}
VP_ENTRY(g06_find_far_triangle) {  // far from the origin coordinates cancel: either nothing is found or a usable transform
  static const float kO[] = {1 << 12, 1 << 13, 1 << 14}; static const Tri kF[] = {{0, 0, 1, 0, 0, 1}, {0, 1, 1, 1, 1, 0}, {0, 0, 1, 1, 1, 2}, {2, 1, 0, 0, 1, 0}, {1, 1, 0, 2, 2, 2}}; float o = kO[__vp_concretize(__vp_range("o", 0, 2))], y = 1 + C("y", 0, 3) * 2; const Tri k = kF[__vp_concretize(__vp_range("k", 0, 4))]; float x = o + C("x", 0, 15), tx = I("tx", -16, 15); Triangle f{{x + k.x0, o + y + k.y0}, {x + k.x1, o + y + k.y1}, {x + k.x2, o + y + k.y2}}, g{{tx, 0}, {1, 0}, {0, 1}};
  auto t = AffineTransform::Find(f, g); if (!t.has_value()) { __vp_reach("none"); return; } __vp_assert(std::isfinite(t->A()) & std::isfinite(t->B()) & std::isfinite(t->C()) & std::isfinite(t->D()) & std::isfinite(t->E()) & std::isfinite(t->F()), "a transform that is found is finite"); __vp_reach("found");
}
