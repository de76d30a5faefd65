// SRC: ink/geometry/partitioned_mesh.cc ink/geometry/intersects.cc ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/internal/algorithms.cc ink/geometry/affine_transform.cc ink/geometry/quad.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// OPT: budget=200
// BOUND: shapes of 18 triangles in two meshes (two tree levels), queries of every kind at every position of a half-integer grid around them (translated by a symbolic transform), any coverage threshold; trees of up to 9 elements and 4 levels with one element anywhere and a query anywhere on an integer grid
// BOUND: two shapes of 2 and 18 triangles at every relative integer or half-integer position, with scaled, mirrored, and non-invertible transforms
// ASSUME: whether a query intersects one triangle is taken from the Intersects functions, which G08 decides
#include <vector>

#include "ink/geometry/internal/algorithms.h"
#include "ink/geometry/internal/intersects_internal.h"
#include "ink/geometry/internal/static_rtree.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/partitioned_mesh.h"
#include "vp.h"
using namespace ink; typedef PartitionedMesh PM; typedef PM::TriangleIndexPair TI; using geometry_internal::IntersectsInternal; using geometry_internal::StaticRTree;
static int Pick(const char* n, int hi) { return __vp_concretize(__vp_range(n, 0, hi)); }
// nx by ny unit squares of two triangles each, some wound the other way
static Mesh GridMesh(int nx, int ny, float x0, float y0) { std::vector<float> xs, ys; std::vector<uint32_t> ix; for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { xs.push_back(x0 + i); ys.push_back(y0 + j); } for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { uint32_t a = j * (nx + 1) + i, b = a + 1, c = a + nx + 1, d = c + 1; for (uint32_t k : {a, b, c, d, b, c}) ix.push_back(k); } std::vector<absl::Span<const float>> sp{xs, ys}; auto m = Mesh::Create(MeshFormat(), sp, ix); __vp_assert(m.ok(), "mesh"); return *m; }
static PM Shape(std::vector<Mesh> ms) { auto p = PM::FromMeshes(ms); __vp_assert(p.ok(), "shape"); return *p; }
static PM Big() { return Shape({GridMesh(3, 2, 0, 0), GridMesh(3, 1, 0, 2)}); }
template <class Q> static bool Hit(const Q& q, const AffineTransform& t, const Triangle& x) { return IntersectsInternal(t.Apply(q), x); }
// every intersected triangle is visited exactly once and nothing else; a visit stops when told to
template <class Q> static void Visit(const PM& p, const Q& q, const AffineTransform& t) {
  std::vector<std::vector<int>> seen; int total = 0; for (const Mesh& m : p.Meshes()) seen.push_back(std::vector<int>(m.TriangleCount())); int n = 0; p.VisitIntersectedTriangles(q, [&](TI i) { bool in = i.mesh_index < seen.size() && i.triangle_index < seen[i.mesh_index].size(); __vp_assert(in, "visited indices exist"); if (in) ++seen[i.mesh_index][i.triangle_index]; ++n; return PM::FlowControl::kContinue; }, t);
  float area = 0, all = 0; for (size_t m = 0; m < seen.size(); ++m) for (size_t k = 0; k < seen[m].size(); ++k) { Triangle x = p.Meshes()[m].GetTriangle(k); bool hit = Hit(q, t, x); __vp_assert(seen[m][k] == (hit ? 1 : 0), "exactly the intersected triangles are visited, once"); float a = x.SignedArea(); a = a < 0 ? -a : a; all += a; if (hit) { ++total; area += a; } }
  __vp_assert(n == total, "nothing else is visited"); for (int stop = 1; stop <= 2; ++stop) { int k = 0; p.VisitIntersectedTriangles(q, [&](TI) { return ++k == stop ? PM::FlowControl::kBreak : PM::FlowControl::kContinue; }, t); __vp_assert(k == (total < stop ? total : stop), "the visit stops when told to"); }
  if constexpr (!std::is_same_v<Q, Point> && !std::is_same_v<Q, Segment>) { __vp_assert(p.Coverage(q, t) == area / all, "coverage is the share of area in intersected triangles"); float th = __vp_f32("th"); __vp_assert(p.CoverageIsGreaterThan(q, th, t) == (area / all > th), "coverage compares with any threshold"); }
  __vp_reach(total ? "some" : "none");
}
static AffineTransform At(int lo, int hi, int sh, float sx = 1, float sy = 1) { float dx = vp::grid("dx", lo, hi, sh), dy = vp::grid("dy", lo, hi, sh); return AffineTransform(sx, 0, dx, 0, sy, dy); }
VP_ENTRY(m09_point) { Visit(Big(), Point{0, 0}, At(-1, 9, 1)); }
VP_ENTRY(m09_segment) { int k = Pick("k", 2); Segment s[3] = {{{0, 0}, {1, 0}}, {{0, 0}, {0.5f, 1}}, {{0, 0}, {0, 0}}}; Visit(Big(), s[k], At(-3, 4, 1)); }
VP_ENTRY(m09_triangle) { Visit(Big(), Triangle{{0, 0}, {1, 0}, {0.5f, 0.5f}}, At(-3, 4, 1)); }
VP_ENTRY(m09_rect) { Visit(Big(), Rect::FromTwoPoints({0, 0}, {1, 0.5f}), At(-3, 4, 1)); }
VP_ENTRY(m09_rect_rev) { Visit(Shape({GridMesh(2, 1, 0, 2), GridMesh(3, 2, 0, 0)}), Rect::FromTwoPoints({0, 0}, {1, 0.5f}), At(-3, 4, 1)); }
static AffineTransform Turned(int k, int lo, int hi, float ox = 0, float oy = 0) { static const float m[4][4] = {{1, -1, 1, 1}, {1, 1, 0, 1}, {0, -1, 1, 0}, {0.5f, 0, -1, -1}}; return AffineTransform(m[k][0], m[k][1], vp::grid("dx", lo, hi, 1) + ox, m[k][2], m[k][3], vp::grid("dy", lo, hi, 1) + oy); }
VP_ENTRY(m09_turned) { int k = Pick("k", 3), q = Pick("q", 1); AffineTransform t = Turned(k, -2, 2); if (q) Visit(Big(), Triangle{{0, 0}, {1, 0}, {0, 0.5f}}, t); else Visit(Big(), Segment{{0, 0}, {1, 1}}, t); }
VP_ENTRY(m09_quad) { Visit(Big(), Quad::FromRect(Rect::FromTwoPoints({0, 0}, {1, 1})), At(-3, 4, 1)); }
VP_ENTRY(m09_scaled) { int k = Pick("k", 3); Visit(Big(), Triangle{{0, 0}, {1, 0}, {0, 1}}, At(-2, 5, 0, k & 1 ? -2 : 0.5f, k & 2 ? 0 : -1)); }
// ---- shape against shape
static PM Small() { return Shape({GridMesh(1, 1, 0, 0)}); }
static bool AnyPair(const PM& a, const AffineTransform& t, const PM& b) { bool r = false; for (const Mesh& m : a.Meshes()) for (uint32_t i = 0; i < m.TriangleCount() && !r; ++i) for (const Mesh& n : b.Meshes()) for (uint32_t j = 0; j < n.TriangleCount() && !r; ++j) r = IntersectsInternal(t.Apply(m.GetTriangle(i)), n.GetTriangle(j)); return r; }
static void ShapeVisit(const PM& p, const PM& q, const AffineTransform& t) {
  int n = 0, count = p.Meshes()[0].TriangleCount(); std::vector<int> seen(count); p.VisitIntersectedTriangles(q, [&](TI i) { ++n; ++seen[i.triangle_index]; return PM::FlowControl::kContinue; }, t); int total = 0; for (int i = 0; i < count; ++i) { Triangle x = p.Meshes()[0].GetTriangle(i); bool hit = false; for (int j = 0; j < 2 && !hit; ++j) hit = IntersectsInternal(t.Apply(q.Meshes()[0].GetTriangle(j)), x); __vp_assert(seen[i] == (hit ? 1 : 0), "exactly the triangles that meet the other shape are visited, once"); total += hit; }
  __vp_assert(n == total, "nothing else is visited"); for (int stop = 1; stop <= 2; ++stop) { int k = 0; p.VisitIntersectedTriangles(q, [&](TI) { return ++k == stop ? PM::FlowControl::kBreak : PM::FlowControl::kContinue; }, t); __vp_assert(k == (total < stop ? total : stop), "the visit stops when told to"); }
  float part = total / (float)count; __vp_assert(p.Coverage(q, t) == part, "coverage by a shape"); float th = __vp_f32_range("th", -2, 2); bool g = p.CoverageIsGreaterThan(q, th, t); __vp_assert(!(g & (part < th - 1e-5f)) & !(!g & (part > th + 1e-5f)), "coverage compares with any threshold"); __vp_reach(total ? "some" : "none");
}
VP_ENTRY(m09_shape_visit) { int k = Pick("k", 1); ShapeVisit(Shape({GridMesh(3, 3, 0, 0)}), Small(), At(-2, 5, k ? 0 : 1, k ? -1 : 1, k ? 0.5f : 1)); }
// offset so that nothing just touches: the bounds of a turned shape are rounded
VP_ENTRY(m09_shape_turned) { ShapeVisit(Shape({GridMesh(2, 2, 0, 0)}), Small(), Turned(Pick("k", 3), -2, 3, 0.25f, 0.0625f)); }
VP_ENTRY(m09_shapes_intersect) {
  PM a = Small(), b = Shape({GridMesh(2, 1, 0, 0), GridMesh(1, 1, 3, 3)}); int k = Pick("k", 3); AffineTransform ta = At(-3, 4, 0, k & 1 ? -1 : 1, k & 1 ? 0.5f : 1), tb = k & 2 ? AffineTransform(2, 0, 1, 0, 2, -1) : AffineTransform(); auto inv = tb.Inverse(); bool want = AnyPair(a, *inv * ta, b); __vp_assert(Intersects(a, ta, b, tb) == want, "shapes intersect exactly when two of their triangles do"); __vp_assert(Intersects(b, tb, a, ta) == want, "in either order"); __vp_reach(want ? "yes" : "no");
}
template <class Q> static void With(const PM& a, const AffineTransform& t, const Q& q) { auto inv = t.Inverse(); bool want = false; for (const Mesh& m : a.Meshes()) for (uint32_t i = 0; i < m.TriangleCount() && !want; ++i) want = IntersectsInternal(inv->Apply(q), m.GetTriangle(i)); __vp_assert(Intersects(a, t, q) == want && Intersects(q, a, t) == want, "a shape intersects what one of its triangles does"); __vp_reach(want ? "yes" : "no"); }
VP_ENTRY(m09_shape_intersects) {
  PM a = Shape({GridMesh(2, 1, 0, 0), GridMesh(1, 1, 3, 3)}); int k = Pick("k", 4), s = Pick("s", 1); AffineTransform t = At(-9, 4, 1, s ? 2 : 1, s ? -1 : 1); Point p{0, 0}; switch (k) { case 0: With(a, t, p); break; case 1: With(a, t, Segment{p, {1, 1}}); break; case 2: With(a, t, Triangle{p, {1, 0}, {0, 1}}); break; case 3: With(a, t, Rect::FromTwoPoints(p, {1, 0.5f})); break; default: With(a, t, Quad::FromRect(Rect::FromTwoPoints(p, {1, 0.5f}))); }
}
// ---- collapsed shapes
static AffineTransform Flat(int k, float dx, float dy) { static const float u[5] = {1, 0, 0.5f, 0, 1}, v[5] = {0, 1, 1, 0, 0.5f}, p[5] = {1, 1, 2, 1, 1}, q[5] = {0, 1, -1, 1, -1}; return AffineTransform(u[k] * p[k], u[k] * q[k], dx, v[k] * p[k], v[k] * q[k], dy); }
VP_ENTRY(m09_collapsed_segment) { // a non-invertible transform turns a shape into the segment that holds all of it, whichever line it falls on
  int k = Pick("k", 4), w = Pick("w", 1); PM a = Shape({GridMesh(2, 1, -1, 0), GridMesh(1, 1, 3, 3 + w)}); float dx = vp::grid("dx", -8, 7), dy = vp::grid("dy", -8, 7); AffineTransform t = Flat(k, dx, dy); Segment s = geometry_internal::CalculateCollapsedSegment(a.Meshes(), *a.Bounds().AsRect(), t);
  // the exact answer: the farthest pair of images
  float lo = 1e9f, hi = -1e9f; static const float p[5] = {1, 1, 2, 1, 1}, q[5] = {0, 1, -1, 1, -1}, u[5] = {1, 0, 0.5f, 0, 1}, v[5] = {0, 1, 1, 0, 0.5f}; for (const Mesh& m : a.Meshes()) for (uint32_t i = 0; i < m.VertexCount(); ++i) { Point c = m.VertexPosition(i); float g = p[k] * c.x + q[k] * c.y; lo = g < lo ? g : lo; hi = g > hi ? g : hi; } auto at = [](Point c, float x, float y) { float ex = c.x - x, ey = c.y - y; return (ex < 1e-4f) & (ex > -1e-4f) & (ey < 1e-4f) & (ey > -1e-4f); }; float x0 = u[k] * lo + dx, y0 = v[k] * lo + dy, x1 = u[k] * hi + dx, y1 = v[k] * hi + dy; __vp_assert((at(s.start, x0, y0) & at(s.end, x1, y1)) | (at(s.start, x1, y1) & at(s.end, x0, y0)), "the segment spans the whole collapsed shape"); __vp_reach("end");
}
VP_ENTRY(m09_collapsed_intersects) {
  PM a = Shape({GridMesh(2, 1, -1, 0)}), b = Shape({GridMesh(1, 1, 0, 0)}); int k = Pick("k", 3), j = Pick("j", 4); float dx = k == 2 ? (float)(Pick("dx", 3) - 2) : vp::grid("dx", -2, 1, 0), dy = k == 2 ? (float)(Pick("dy", 3) - 2) : vp::grid("dy", -2, 1, 0); AffineTransform t = Flat(k, dx, dy), u = j == 4 ? AffineTransform() : Flat(j, 0, 0); Segment s = geometry_internal::CalculateCollapsedSegment(a.Meshes(), *a.Bounds().AsRect(), t); bool want = false; if (j == 4) { for (int i = 0; i < 2 && !want; ++i) want = IntersectsInternal(s, b.Meshes()[0].GetTriangle(i)); } else want = IntersectsInternal(s, geometry_internal::CalculateCollapsedSegment(b.Meshes(), *b.Bounds().AsRect(), u));
  __vp_assert(Intersects(a, t, b, u) == want && Intersects(b, u, a, t) == want, "a collapsed shape acts as its segment"); __vp_assert(Intersects(a, t, Point{0, 0}) == IntersectsInternal(s, Point{0, 0}), "a collapsed shape acts as its segment against points"); __vp_reach(want ? "yes" : "no");
}
// ---- the tree itself
template <uint32_t B> static void Tree(int lo, int hi) {
  int n = lo + Pick("n", hi - lo); std::vector<Rect> r; for (int i = 0; i < n; ++i) r.push_back(Rect::FromTwoPoints({(float)(i * 5 % 7), (float)(i * 3 % 5)}, {(float)(i * 5 % 7 + i % 3), (float)(i * 3 % 5 + i % 2)})); if (n > 2) { float x = vp::grid("x", 0, 7), y = vp::grid("y", 0, 7); r[2] = Rect::FromTwoPoints({x, y}, {x + 1, y + 2}); }
  std::vector<int> ids(n); for (int i = 0; i < n; ++i) ids[i] = i; StaticRTree<int, B> t(absl::MakeConstSpan(ids), [&r](const int& i) { return r[i]; }); for (const auto& node : t.BranchNodes()) __vp_assert(node.child_indices.Size() <= (int)B && node.child_indices.Size() > 0, "nodes hold at most the branching factor");
  float qx = vp::grid("qx", -1, 8), qy = vp::grid("qy", -1, 8); Rect q = Rect::FromTwoPoints({qx, qy}, {qx + 1, qy}); std::vector<int> seen(n); int k = 0, total = 0; t.VisitIntersectedElements(q, [&](const int& i) { ++seen[i]; ++k; return true; }); for (int i = 0; i < n; ++i) { bool hit = vp::merged([&] { return IntersectsInternal(r[i], q); }); __vp_assert((seen[i] == 1) == hit && seen[i] <= 1, "exactly the elements whose bounds meet the query are visited, once"); total += seen[i]; } int c = 0; t.VisitIntersectedElements(q, [&](const int&) { ++c; return false; }); __vp_assert(c == (total ? 1 : 0), "a visit stops when told to"); __vp_reach("end");
}
VP_ENTRY(m09_tree_2) { Tree<2>(0, 6); }
VP_ENTRY(m09_tree_3) { Tree<3>(0, 7); }
VP_ENTRY_T(m09_tree_2_deep) { Tree<2>(7, 9); }
VP_ENTRY_T(m09_tree_4) { Tree<4>(4, 10); }
// ---- two threads sharing a shape: whatever runs between lock operations, both see the same index and areas
static const PM* shared; static int other; static bool ran; static float got; static int count;
static void Other() { if (ran || !__vp_bool("switch")) return; ran = true; Rect r = Rect::FromTwoPoints({0, 0}, {1, 1}); if (other == 0) got = shared->Coverage(r); else if (other == 1) { got = shared->CoverageIsGreaterThan(r, 0.25f) ? 0.4375f : 0; } else { shared->VisitIntersectedTriangles(Point{0.5f, 0.25f}, [](TI) { ++count; return PM::FlowControl::kContinue; }); got = count == 1 ? 0.4375f : -1; } }
VP_ENTRY(m09_two_threads) {
  PM p = Shape({GridMesh(4, 2, 0, 0)}), copy = p; shared = &copy; ran = false; count = 0; other = Pick("other", 2); int mine = Pick("mine", 2); Rect r = Rect::FromTwoPoints({0, 0}, {1, 1}); absl::vp_lock_hook = Other; float c = 0.4375f; if (mine == 0) c = p.Coverage(r); else if (mine == 1) p.InitializeSpatialIndex(); else { int k = 0; p.VisitIntersectedTriangles(Point{0.5f, 0.25f}, [&](TI) { ++k; return PM::FlowControl::kContinue; }); c = k == 1 ? 0.4375f : -1; }
  absl::vp_lock_hook = nullptr; __vp_assert(c == 0.4375f, "the calling thread's answer"); __vp_assert(!ran || got == 0.4375f, "the other thread's answer"); __vp_assert(p.IsSpatialIndexInitialized() && copy.IsSpatialIndexInitialized(), "copies share the index"); __vp_reach(ran ? "interleaved" : "alone");
}
