// SRC: ink/strokes/internal/rounded_polygon.cc ink/geometry/internal/circle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// OPT: budget=150
// OPT: total=500
// BOUND: convex polygons of 2 to 5 circles with radii 0 to 4 at integer centers (8 hand-made ones in 3 rotations by multiples of 135 degrees, thorough: 8 rotations and 2 scales; pairs of circles of radii 0 to 3 at distances up to 8); test circles with centers on a half-integer grid and radii 0 to 3; circles within 1e-3 of the boundary are not compared
#include <cmath>
#include <vector>

#include "ink/strokes/internal/rounded_polygon.h"
#include "vp.h"
using namespace ink; using namespace ink::strokes_internal; using geometry_internal::Circle;
static int C(const char* n, int lo, int hi) { return (int)__vp_concretize(__vp_range(n, lo, hi)); }
struct K { double x, y, r; };
typedef std::vector<K> Ks;
// signed distance to the hull of circles: the largest distance to a supporting line
static double Signed(const Ks& k, double x, double y) {
  double best = -1e300; auto dir = [&](double nx, double ny) { double h = -1e300; for (auto& c : k) h = std::fmax(h, c.x * nx + c.y * ny + c.r); best = std::fmax(best, x * nx + y * ny - h); };
  for (auto& c : k) { double dx = x - c.x, dy = y - c.y, l = std::sqrt(dx * dx + dy * dy); if (l > 0) dir(dx / l, dy / l); }
  // normals of the common tangents of two circles: n . (b - a) = ra - rb
  for (size_t i = 0; i < k.size(); ++i) for (size_t j = 0; j < k.size(); ++j) if (i != j) { double ux = k[j].x - k[i].x, uy = k[j].y - k[i].y, d = std::sqrt(ux * ux + uy * uy), c = (k[i].r - k[j].r) / d; if (c > 1 || c < -1) continue; double s = std::sqrt(1 - c * c); ux /= d; uy /= d; dir(c * ux + s * uy, c * uy - s * ux); }
  return best;
}
static RoundedPolygon Make(const Ks& k) { std::vector<Circle> c; for (auto& q : k) c.push_back(Circle({(float)q.x, (float)q.y}, (float)q.r)); return RoundedPolygon(c); }
static void Check(const Ks& k, float x, float y, float r) { RoundedPolygon p = Make(k); Ks e; for (size_t i = 0; i < k.size(); ++i) { auto& a = p.Arcs()[i].circle; e.push_back({a.Center().x, a.Center().y, a.Radius()}); } double room = -r - Signed(e, x, y); bool in = vp::merged([&] { return p.ContainsCircle(Circle({x, y}, r)); }); __vp_assert(!(room > 1e-3) | in, "contains circles within"); __vp_assert(!(room < -1e-3) | !in, "does not contain circles that stick out"); __vp_reach("end"); }
static const Ks base[8] = {{{0, 0, 1}, {4, 0, 1}}, {{0, 0, 2}, {4, 0, 1}}, {{0, 0, 0}, {4, 0, 0}, {4, 3, 0}, {0, 3, 0}}, {{0, 0, 1}, {4, 0, 1}, {2, 4, 1}}, {{0, 0, 0}, {5, 0, 2}, {0, 4, 1}}, {{0, 0, 1}, {4, -1, 1}, {6, 2, 1}, {3, 5, 1}, {-1, 3, 1}}, {{0, 0, 2}, {6, 0, 0}, {6, 3, 0}, {0, 4, 2}}, {{0, 0, 0}, {3, 0, 0}}};
static void At(int i, int rot, double f, int y) { Ks k = base[i]; double a = 0.78539816339744831 * rot, c = std::cos(a), s = std::sin(a); for (auto& q : k) q = {f * (c * q.x - s * q.y), f * (s * q.x + c * q.y), f * q.r}; Check(k, vp::grid("x", -16, 15, 1) * (float)f, y * (float)f, C("r", 0, 1) * (float)f); }
static void Turned(int i) { At(i, C("rot", 0, 2) * 3, 1, C("y", -1, 2) * 2); }
static void TurnedAll(int i) { At(i, C("rot", 0, 7), C("scale", 0, 1) ? 0.25 : 1, C("y", -6, 6)); }
VP_ENTRY(k06_stadium) { Turned(0); }
VP_ENTRY_T(k06_all_stadium) { TurnedAll(0); }
VP_ENTRY(k06_drop) { Turned(1); }
VP_ENTRY_T(k06_all_drop) { TurnedAll(1); }
VP_ENTRY(k06_rect) { Turned(2); }
VP_ENTRY_T(k06_all_rect) { TurnedAll(2); }
VP_ENTRY(k06_triangle) { Turned(3); }
VP_ENTRY_T(k06_all_triangle) { TurnedAll(3); }
VP_ENTRY(k06_mixed_triangle) { Turned(4); }
VP_ENTRY_T(k06_all_mixed_triangle) { TurnedAll(4); }
VP_ENTRY(k06_pentagon) { Turned(5); }
VP_ENTRY_T(k06_all_pentagon) { TurnedAll(5); }
VP_ENTRY(k06_mixed_rect) { Turned(6); }
VP_ENTRY_T(k06_all_mixed_rect) { TurnedAll(6); }
VP_ENTRY(k06_line) { Turned(7); }
VP_ENTRY_T(k06_all_line) { TurnedAll(7); }
VP_ENTRY_T(k06_all_pairs) { int a = C("a", 0, 3), b = C("b", 0, 3), x = C("dx", 0, 6), y = C("dy", -3, 3); if (x * x + y * y <= (a - b) * (a - b)) return; Check({{0, 0, (double)a}, {(double)x, (double)y, (double)b}}, vp::grid("x", -16, 15, 1), C("y", -1, 1) * 3, C("r", 0, 1)); }
VP_ENTRY(k06_pairs) {  int a = C("a", 0, 3), b = C("b", 0, 3), x = C("dx", 0, 3) * 2, y = C("dy", -1, 1) * 3; if (x * x + y * y <= (a - b) * (a - b)) return; Check({{0, 0, (double)a}, {(double)x, (double)y, (double)b}}, vp::grid("x", -16, 15, 1), C("y", 0, 1) * 3, 0); }
VP_ENTRY(k06_large_test) { Check(base[C("i", 0, 6)], vp::grid("x", -16, 15, 1), C("y", -2, 4), C("r", 2, 3)); }
VP_ENTRY(k06_far) { float f = std::ldexp(1.f, C("e", 4, 12)); Check(base[C("i", 0, 7)], vp::grid("x", -8, 7, 0) * f, C("y", -1, 1) * f, C("r", 0, 1) * f); }
VP_ENTRY(k06_contained) { int r = C("r", 1, 4), x = __vp_range("x", -4, 4), y = C("y", -4, 4), s = C("s", 0, 4); __vp_assume((x * x + y * y <= (r - s) * (r - s))); Circle c[2] = {Circle({0, 0}, (float)r), Circle({(float)x, (float)y}, (float)s)}; __vp_expect_check_fail(); RoundedPolygon p(c); __vp_assert(false, "circles that contain a neighbor are refused"); }
VP_ENTRY(k06_too_few) { int n = C("n", 0, 1); std::vector<Circle> c(n, Circle({0, 0}, 1)); __vp_expect_check_fail(); RoundedPolygon p(c); __vp_assert(false, "fewer than two circles are refused"); }
