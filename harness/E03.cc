// SRC: ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc ink/strokes/internal/brush_tip_extruder/find_clockwise_winding_segment.cc ink/strokes/internal/brush_tip_extruder/simplify.cc ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc ink/strokes/internal/brush_tip_extruder/extruded_vertex.cc ink/strokes/internal/legacy_vertex.cc ink/strokes/internal/stroke_vertex.cc ink/color/color.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/legacy_segment_intersection.cc ink/geometry/internal/legacy_triangle_contains.cc ink/geometry/internal/legacy_vector_utils.cc ink/geometry/internal/intersects_internal.cc ink/geometry/intersects.cc ink/geometry/distance.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/partitioned_mesh.cc ink/geometry/internal/static_rtree.cc
// OPT: budget=120
// BOUND: partial outlines of up to 3 + 3 indices with any partition start; triangle fans of 4 vertices at any heights in [-8,7] with up to one discontinuity (all ranges) on sides of 5 vertices; outlines of up to 3 vertices on a 4x4 grid against segments with corners in [-4,3]; polylines of 5 vertices on a grid with every tolerance in [0,8]
#include <vector>

#include "ink/geometry/distance.h"
#include "ink/geometry/internal/legacy_segment_intersection.h"
#include "ink/geometry/internal/legacy_triangle_contains.h"
#include "ink/strokes/internal/brush_tip_extruder/directed_partial_outline.h"
#include "ink/strokes/internal/brush_tip_extruder/find_clockwise_winding_segment.h"
#include "ink/strokes/internal/brush_tip_extruder/simplify.h"
#include "vp.h"
using namespace ink; using namespace ink::brush_tip_extruder_internal; using strokes_internal::StrokeVertex; using strokes_internal::LegacyVertex;
static int C(const char* n, int lo, int hi) { return (int)__vp_concretize(__vp_range(n, lo, hi)); }
static const char* nh[8] = {"h0", "h1", "h2", "h3", "h4", "h5", "h6", "h7"}; static const char* nx[8] = {"x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7"}; static const char* ny[8] = {"y0", "y1", "y2", "y3", "y4", "y5", "y6", "y7"};
struct Legacy { std::vector<LegacyVertex> v; std::vector<uint32_t> i; MutableMeshView view{v, i}; };
// ---- partial outlines
VP_ENTRY(e03_outline_order) {
  std::vector<IndexType> s, e; for (int i = 0; i < 4; ++i) { s.push_back(__vp_u32(nx[i])); e.push_back(__vp_u32(ny[i])); } int a = C("a", 0, 4), n = C("n", 0, 4 - a), b = C("b", 0, 4), m = C("m", 0, 4 - b); DirectedPartialOutline o(&s, a, n, &e, b, m); __vp_assert(o.Size() == (uint32_t)(n + m) && o.StartingSideSize() == (uint32_t)n, "sizes"); bool ok = true; for (int i = 0; i < n; ++i) ok = ok & (o[i] == s[a + n - 1 - i]); for (int i = 0; i < m; ++i) ok = ok & (o[n + i] == e[b + i]); __vp_assert(ok, "down the starting side, then up the ending side"); __vp_reach("end");
}
VP_ENTRY(e03_outline_construct) {
  Side l, r; l.self_id = SideId::kLeft; r.self_id = SideId::kRight; for (int i = 0; i < 4; ++i) { l.indices.push_back(10 + i); r.indices.push_back(20 + i); } int last[2] = {3, 3}; Side* sd[2] = {&l, &r}; for (int k = 0; k < 2; ++k) { int w = C(nh[k], 0, 5); if (w == 0) continue; Side::SelfIntersection x{}; x.retriangulation_started = w >= 2; x.starting_offset = w >= 2 ? w - 2 : 1; if (w >= 2) last[k] = w - 2; sd[k]->intersection = x; __vp_assert(LastOutlineIndexOffset(*sd[k]) == (uint32_t)last[k], "last outline index"); }
  l.partition_start.adjacent_first_index_offset = C("f", 0, 3); l.partition_start.opposite_first_index_offset = C("g", 0, 3); l.partition_start.outline_connects_sides = C("c", 0, 1); int f = l.partition_start.adjacent_first_index_offset, g = l.partition_start.opposite_first_index_offset; if (f > last[0] + 1 || g > last[1] + 1) return; auto o = ConstructPartialOutline(l, r); std::vector<IndexType> w; for (int i = last[0]; i >= f; --i) w.push_back(10 + i); __vp_assert(o.StartingSideSize() == w.size(), "starting side size"); if (l.partition_start.outline_connects_sides) for (int i = g; i <= last[1]; ++i) w.push_back(20 + i); __vp_assert(o.Size() == w.size(), "outline size"); for (size_t i = 0; i < w.size(); ++i) __vp_assert(o[i] == w[i], "outline indices"); __vp_reach("end");
}
// ---- triangle fans around (0,0) over the points (1,h): the triangle between h and k is clockwise on the right side exactly when k < h
static void FanCheck(const std::optional<Segment>& got, const int* h, const std::vector<int>& kept, bool left) { // kept: offsets in order
  for (int i = (int)kept.size() - 1; i > 0; --i) { int c = h[kept[i - 1]], l = h[kept[i]]; if (left ? l > c : l < c) { __vp_assert(got.has_value(), "a clockwise triangle is found"); if (!got) return; Point p{1, (float)c}, q{1, (float)l}; __vp_assert(left ? (got->start.y == q.y) & (got->end.y == p.y) : (got->start.y == p.y) & (got->end.y == q.y), "the last clockwise segment is returned"); __vp_assert((got->start.x == 1) & (got->end.x == 1), "segment on the outline"); return; } }
  __vp_assert(!got.has_value(), "no segment without a clockwise triangle");
}
VP_ENTRY(e03_fan) {
  Legacy m; int n = C("n", 0, 4); bool left = C("left", 0, 1); int h[4]; std::vector<IndexType> idx; std::vector<int> kept; for (int i = 0; i < n; ++i) { h[i] = __vp_range(nh[i], -8, 7); m.view.AppendVertex({.position = {1, (float)h[i]}}); idx.push_back(i); kept.push_back(i); } auto s = FindLastClockwiseWindingTriangleFanSegment(m.view, absl::MakeConstSpan(idx.data(), idx.size()), left ? SideId::kLeft : SideId::kRight, {0, 0}); FanCheck(s, h, kept, left); __vp_reach("end");
}
// the same with points on several rays: distinct points that are collinear with the centre form harmless degenerate triangles
VP_ENTRY(e03_fan_rays) {
  Legacy m; int n = C("n", 2, 4); bool left = C("left", 0, 1); int h[4], x[4]; std::vector<IndexType> idx; for (int i = 0; i < n; ++i) { x[i] = C(nx[i], 0, 2); h[i] = __vp_range(nh[i], -2, 1); m.view.AppendVertex({.position = {(float)x[i], (float)h[i]}}); idx.push_back(i); } auto got = FindLastClockwiseWindingTriangleFanSegment(m.view, absl::MakeConstSpan(idx.data(), idx.size()), left ? SideId::kLeft : SideId::kRight, {0, 0});
  for (int i = n - 1; i > 0; --i) { int det = x[i - 1] * h[i] - x[i] * h[i - 1]; if (left ? det > 0 : det < 0) { __vp_assert(got.has_value(), "a clockwise triangle is found"); if (!got) return; Point p{(float)x[i - 1], (float)h[i - 1]}, q{(float)x[i], (float)h[i]}; if (left) std::swap(p, q); __vp_assert((got->start == p) & (got->end == q), "the last clockwise segment is returned"); __vp_reach("found"); return; } }
  __vp_assert(!got.has_value(), "no segment without a clockwise triangle"); __vp_reach("none");
}
static void MultiFan(int discontinuities) {
  Legacy m; Side s; bool left = C("left", 0, 1); s.self_id = left ? SideId::kLeft : SideId::kRight; int h[5]; for (int i = 0; i < 5; ++i) { h[i] = __vp_range(nh[i], 0, 3); m.view.AppendVertex({.position = {1, (float)h[i]}}); s.indices.push_back(i); } bool gone[5] = {}; int at = 0; for (int d = 0; d < discontinuities; ++d) { int a = C(nx[d], 0, 3), b = C(ny[d], 1, 4); if (a < at || b <= a) return; s.intersection_discontinuities.push_back({(uint32_t)a, (uint32_t)b}); for (int i = a + 1; i < b; ++i) gone[i] = true; at = b; }
  int f = C("f", 0, 4), l = C("l", 0, 6); auto g = FindLastClockwiseWindingMultiTriangleFanSegment(m.view, s, {(uint32_t)f, (uint32_t)l}, {0, 0}); std::vector<int> kept; for (int i = f; i <= l && i < 5; ++i) if (!gone[i]) kept.push_back(i); FanCheck(g, h, kept, left); __vp_reach("end");
}
VP_ENTRY(e03_multi_fan0) { MultiFan(0); }
VP_ENTRY(e03_multi_fan1) { MultiFan(1); }
VP_ENTRY_T(e03_multi_fan2) { MultiFan(2); }
// ---- intersections of outlines and segments, exactly
struct Rat { long n, d; }; // n/d, d > 0
static bool Less(Rat a, Rat b) { return a.n * b.d < b.n * a.d; }
// smallest t in [0,1] with p+t(q-p) on the closed segment rs
static bool First(long px, long py, long qx, long qy, long rx, long ry, long sx, long sy, Rat* t) {
  long ux = qx - px, uy = qy - py, vx = sx - rx, vy = sy - ry, wx = rx - px, wy = ry - py, det = ux * vy - uy * vx;
  if (det != 0) { long a = wx * vy - wy * vx, b = wx * uy - wy * ux; if (det < 0) { det = -det; a = -a; b = -b; } if (a < 0 || a > det || b < 0 || b > det) return false; *t = {a, det}; return true; }
  long uu = ux * ux + uy * uy; if (vx == 0 && vy == 0) { if (ux * wy - uy * wx != 0) return false; long a = ux * wx + uy * wy; if (uu == 0) { *t = {0, 1}; return wx == 0 && wy == 0; } if (a < 0 || a > uu) return false; *t = {a, uu}; return true; }
  if (uu == 0) { if (vx * wy - vy * wx != 0) return false; long a = -(vx * wx + vy * wy), vv = vx * vx + vy * vy; *t = {0, 1}; return a >= 0 && a <= vv; }
  if (ux * wy - uy * wx != 0) return false; long a = ux * wx + uy * wy, b = ux * (sx - px) + uy * (sy - py); long lo = a < b ? a : b, hi = a < b ? b : a; if (hi < 0 || lo > uu) return false; *t = {lo < 0 ? 0 : lo, uu}; return true;
}
static bool Near(float a, float b) { float d = a - b; return (d < 1e-5f) & (d > -1e-5f); }
static void Outline(int a, int b, float budget) { // (0,0) -> (a,0) -> (a,b)
  Legacy m; std::vector<IndexType> idx{2, 1, 0}, none; long X[3] = {0, a, a}, Y[3] = {0, 0, b}; for (int i = 0; i < 3; ++i) m.view.AppendVertex({.position = {(float)X[i], (float)Y[i]}}); DirectedPartialOutline o(&idx, 0, 3, &none, 0, 0);
  long rx = C("rx", -1, 2), ry = C("ry", -1, 2), sx = C("sx", -1, 2), sy = __vp_range("sy", -4, 3); auto g = FindOutlineIntersection(o, {{(float)rx, (float)ry}, {(float)sx, (float)sy}}, m.view, budget);
  float left = budget; for (int i = 1; i < 3 && left > 0; ++i) { if (X[i] == X[i - 1] && Y[i] == Y[i - 1]) continue; float len = (X[i] - X[i - 1]) + (Y[i] - Y[i - 1]); Rat t; if (First(X[i - 1], Y[i - 1], X[i], Y[i], rx, ry, sx, sy, &t)) { __vp_assert(g.segment_intersection.has_value(), "an intersection within the budget is found"); if (!g.segment_intersection) return; auto& x = *g.segment_intersection; float tf = (float)t.n / t.d; __vp_assert(x.starting_index == (uint32_t)i - 1 && x.ending_index == (uint32_t)i, "first intersected segment"); __vp_assert(Near(x.outline_interpolation_value, tf) & Near(x.position.x, X[i - 1] + tf * (X[i] - X[i - 1])) & Near(x.position.y, Y[i - 1] + tf * (Y[i] - Y[i - 1])), "earliest point of intersection"); float u = x.segment_interpolation_value; __vp_assert((u >= 0) & (u <= 1), "ratio on the segment"); if (rx != sx || ry != sy) __vp_assert(Near(rx + u * (sx - rx), x.position.x) & Near(ry + u * (sy - ry), x.position.y), "both ratios give the same point"); float rest = left - len * tf; __vp_assert(Near(g.remaining_search_budget, rest > 0 ? rest : 0), "remaining budget"); return; } left -= len; }
  Rat t; bool deg = a == 0 && b == 0; if (left > 0 && deg && First(X[2], Y[2], X[2], Y[2], rx, ry, sx, sy, &t)) { __vp_assert(g.segment_intersection.has_value(), "a degenerate outline is found"); if (!g.segment_intersection) return; auto& x = *g.segment_intersection; __vp_assert(x.starting_index == 2 && x.ending_index == 2, "last vertex of a degenerate outline"); __vp_assert(Near(x.position.x, X[2]) & Near(x.position.y, Y[2]), "position of the last vertex"); return; }
  __vp_assert(!g.segment_intersection.has_value(), "no intersection within the budget"); __vp_assert(g.remaining_search_budget == (left > 0 ? left : 0), "remaining budget after a full search"); __vp_reach("miss");
}
VP_ENTRY(e03_intersect) { int a = C("a", 0, 2), b = C("b", 0, 2); Outline(a, b, 10); __vp_reach("end"); }
VP_ENTRY(e03_intersect_budget) { int a = C("a", 0, 2), b = C("b", 0, 2); Outline(a, b, C("B", 0, 2)); __vp_reach("end"); }
VP_ENTRY(e03_intersect_single) { // one vertex away from the origin
  Legacy m; std::vector<IndexType> idx{0}, none; float px = C("px", -2, 2), py = C("py", -2, 2); m.view.AppendVertex({.position = {px, py}}); DirectedPartialOutline o(&idx, 0, 1, &none, 0, 0); int sx = C("sx", -2, 2), sy = C("sy", -2, 2), tx = C("tx", -2, 2), ty = C("ty", -2, 2); auto g = FindOutlineIntersection(o, {{(float)sx, (float)sy}, {(float)tx, (float)ty}}, m.view, 1); Rat t; bool on = First((long)px, (long)py, (long)px, (long)py, sx, sy, tx, ty, &t); __vp_assert(g.segment_intersection.has_value() == on, "found exactly when the vertex lies on the segment"); __vp_assert(g.remaining_search_budget == 1, "nothing travelled"); if (on && g.segment_intersection) { auto& x = *g.segment_intersection; __vp_assert(x.starting_index == 0 && x.ending_index == 0, "the vertex itself"); __vp_assert(x.position.x == px && x.position.y == py, "position of the vertex"); float u = x.segment_interpolation_value; if (sx != tx || sy != ty) __vp_assert(Near(sx + u * (tx - sx), px) & Near(sy + u * (ty - sy), py), "ratio on the segment"); } __vp_reach("end");
}
VP_ENTRY(e03_intersect_triangle) { // every outline position up to the intersection lies in the triangle
  Legacy m; std::vector<IndexType> idx{3, 2, 1, 0}, none; int X[4] = {1, C("x1", 0, 4), C("x2", 0, 4), 2}, Y[4] = {1, C("y1", 0, 3), 2, C("y3", 0, 2)}; for (int i = 0; i < 4; ++i) m.view.AppendVertex({.position = {(float)X[i], (float)Y[i]}}); DirectedPartialOutline o(&idx, 0, 4, &none, 0, 0); Triangle tri{{0, 0}, {4, 0}, {0, 4}}; int sy = C("sy", -1, 3); Segment s{{0, (float)sy}, {5, (float)sy}}; auto g = FindOutlineIntersection(o, s, m.view, 1000, tri); int hit = -1; for (int i = 1; i < 4; ++i) { if (X[i] == X[i - 1] && Y[i] == Y[i - 1]) continue; Rat t; if (First(X[i - 1], Y[i - 1], X[i], Y[i], 0, sy, 5, sy, &t)) { hit = i; break; } if (X[i] + Y[i] > 4) { hit = 0; break; } }
  if (hit <= 0) { __vp_assert(!g.segment_intersection.has_value(), "nothing found past a position outside the triangle"); if (hit == 0) __vp_assert(g.remaining_search_budget == 0, "leaving the triangle uses up the budget"); } else { __vp_assert(g.segment_intersection.has_value() && g.segment_intersection->ending_index == (uint32_t)hit, "the first intersection is found"); } __vp_reach("end");
}
// ---- legacy predicates
VP_ENTRY(e03_legacy_contains) {
  int x[3], y[3]; x[0] = 0; y[0] = 0; x[1] = C("x1", -2, 2); y[1] = C("y1", 0, 2); x[2] = C("x2", -2, 2); y[2] = C("y2", -2, 2); int a = x[1] * y[2] - x[2] * y[1]; if (a == 0) return; int px = __vp_range("px", -4, 3), py = C("py", -3, 3); int k[3]; for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3; k[i] = (x[j] - x[i]) * (py - y[i]) - (y[j] - y[i]) * (px - x[i]); if (a < 0) k[i] = -k[i]; } Triangle t{{0, 0}, {(float)x[1], (float)y[1]}, {(float)x[2], (float)y[2]}}; __vp_assert(geometry_internal::LegacyTriangleContains(t, {(float)px, (float)py}) == ((k[0] >= 0) & (k[1] >= 0) & (k[2] >= 0)), "legacy containment is exact on the grid"); __vp_reach("end");
}
VP_ENTRY(e03_legacy_intersection) {
  int px = C("px", -1, 1), py = C("py", -1, 1), qx = C("qx", -1, 1), qy = C("qy", 0, 2), rx = C("rx", -2, 2), ry = C("ry", -1, 2), sx = __vp_range("sx", -2, 1), sy = 1; auto g = geometry_internal::LegacyIntersection({{(float)px, (float)py}, {(float)qx, (float)qy}}, {{(float)rx, (float)ry}, {(float)sx, (float)sy}}); Rat t; bool on = First(px, py, qx, qy, rx, ry, sx, sy, &t); __vp_assert(g.has_value() == on, "legacy intersection is exact on the grid"); if (on && g) { auto& a = g->segment1_interval; auto& b = g->segment2_interval; __vp_assert((a[0] <= a[1]) & (a[0] >= 0) & (a[1] <= 1) & (b[0] >= 0) & (b[0] <= 1) & (b[1] >= 0) & (b[1] <= 1), "intervals lie within the segments"); if (px != qx || py != qy) __vp_assert(Near(a[0], (float)t.n / t.d), "start of the intersection"); for (int k = 0; k < 2; ++k) { Point e = k ? g->intx.end : g->intx.start; __vp_assert(Near(e.x, px + a[k] * (qx - px)) & Near(e.y, py + a[k] * (qy - py)) & Near(e.x, rx + b[k] * (sx - rx)) & Near(e.y, ry + b[k] * (sy - ry)), "both intervals describe the same points"); } } __vp_reach("end");
}
// ---- simplification
static void Simplify(int n, int lo, int hi) {
  std::vector<ExtrudedVertex> in, out; for (int i = 0; i < n; ++i) { ExtrudedVertex v; v.position = {(float)(i == 3 ? C("x3", 1, 3) : i), (float)C(ny[i], lo, i == 0 ? lo : hi)}; v.texture_coords.x = i; in.push_back(v); } out.push_back({.texture_coords = {99, 0}}); float eps = __vp_f32_range("eps", 0, 8); SimplifyPolyline(in.begin(), in.end(), eps, out);
  __vp_assert(out.size() >= 1 && out[0].texture_coords.x == 99, "appended to the output"); if (n < 3) { __vp_assert(out.size() == (size_t)n + 1, "short polylines are copied"); return; }
  __vp_assert(out.size() >= 3 && out[1].texture_coords.x == 0 && out.back().texture_coords.x == n - 1, "the ends are kept"); for (size_t i = 2; i < out.size(); ++i) { int a = (int)out[i - 1].texture_coords.x, b = (int)out[i].texture_coords.x; __vp_assert(a < b, "kept vertices are in order"); __vp_assert(out[i] == in[b], "kept vertices are copied"); for (int j = a + 1; j < b; ++j) __vp_assert(Distance(Segment{in[a].position, in[b].position}, in[j].position) <= eps, "dropped vertices lie within the tolerance of the result"); }
  if (n == 3) __vp_assert((out.size() == 4) == (Distance(Segment{in[0].position, in[2].position}, in[1].position) > eps), "a vertex is dropped exactly when within the tolerance"); __vp_reach("end");
}
VP_ENTRY(e03_simplify) { int n = C("n", 0, 4); Simplify(n, 0, 2); }
VP_ENTRY(e03_simplify5) { Simplify(5, 0, 2); }
// ---- extruded vertices
VP_ENTRY(e03_vertex) { // interpolation hits both ends, and barycentric interpolation takes the position given
  ExtrudedVertex a, b; a.position = {vp::grid("ax", -64, 63, 2), 1}; b.position = {vp::grid("bx", -64, 63, 2), 5}; a.texture_coords = {vp::grid("u", -64, 63, 2), 2}; b.texture_coords = {vp::grid("v", -64, 63, 2), 6}; a.color = {0, 0.25f, 0.5f, 1}; b.color = {1, 0.5f, 0.25f, 0}; a.new_non_position_attributes.opacity_shift = -1; b.new_non_position_attributes.opacity_shift = 1; a.new_non_position_attributes.surface_uv = {0, 1}; b.new_non_position_attributes.surface_uv = {2, 4};
  int k = C("t", 0, 4); float t = k / 4.f; ExtrudedVertex r = Lerp(a, b, t); __vp_assert((r.position.x == a.position.x + (b.position.x - a.position.x) * t) & (r.position.y == 1 + 4 * t), "position"); __vp_assert((r.texture_coords.x == a.texture_coords.x * (1 - t) + b.texture_coords.x * t) & (r.texture_coords.y == 2 + 4 * t), "texture coordinates"); __vp_assert(r.color.r == t && r.color.g == 0.25f + 0.25f * t && r.color.b == 0.5f - 0.25f * t && r.color.a == 1 - t, "colour"); __vp_assert(r.new_non_position_attributes.opacity_shift == -1 + 2 * t && r.new_non_position_attributes.surface_uv.x == 2 * t && r.new_non_position_attributes.surface_uv.y == 1 + 3 * t, "attributes"); __vp_reach("end");
}
VP_ENTRY(e03_vertex_barycentric) {
  ExtrudedVertex v[3]; v[0].position = {0, 0}; v[1].position = {4, 0}; v[2].position = {0, 4}; for (int i = 0; i < 3; ++i) { v[i].texture_coords = v[i].position; v[i].color.r = i == 1; v[i].color.a = i == 2; v[i].secondary_texture_coords = {v[i].position.y, v[i].position.x}; v[i].new_non_position_attributes.opacity_shift = i == 0; } float x = vp::grid("x", 0, 16, 2), y = C("y", 0, 4); ExtrudedVertex r = BarycentricLerp(v[0], v[1], v[2], {x, y}); __vp_assert((r.position.x == x) & (r.position.y == y), "position as given"); __vp_assert((r.texture_coords.x == x) & (r.texture_coords.y == y) & (r.secondary_texture_coords.x == y) & (r.secondary_texture_coords.y == x), "texture coordinates"); __vp_assert((r.color.r == x / 4) & (r.color.a == y / 4), "colour"); __vp_assert(r.new_non_position_attributes.opacity_shift == 1 - x / 4 - y / 4, "attributes"); __vp_reach("end");
}
