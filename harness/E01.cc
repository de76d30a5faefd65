// SRC: ink/strokes/internal/stroke_outline.cc ink/strokes/internal/stroke_shape_update.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// OPT: budget=100
// BOUND: outline histories of 3 operations (quick: 2, or 3 appends in a row), each appending up to 3 indices per side (all values) or truncating to any counts up to 7 (thorough: the same)
// BOUND: shape updates: all offsets present or absent (all 32-bit values), regions with any finite corners
#include <vector>

#include "ink/geometry/envelope.h"
#include "ink/strokes/internal/stroke_outline.h"
#include "ink/strokes/internal/stroke_shape_update.h"
#include "vp.h"
using namespace ink; using namespace ink::strokes_internal;
static const char* nl[5] = {"l0", "l1", "l2", "l3", "l4"}; static const char* nr[5] = {"r0", "r1", "r2", "r3", "r4"}; static const char* no[5] = {"o0", "o1", "o2", "o3", "o4"};
static const char* nv[5][6] = {{"a0", "a1", "a2", "a3", "a4", "a5"}, {"b0", "b1", "b2", "b3", "b4", "b5"}, {"c0", "c1", "c2", "c3", "c4", "c5"}, {"d0", "d1", "d2", "d3", "d4", "d5"}, {"e0", "e1", "e2", "e3", "e4", "e5"}};
static void Same(const StrokeOutline& o, const std::vector<uint32_t>& l, const std::vector<uint32_t>& r) {
  auto c = o.GetIndexCounts(); __vp_assert((c.left == l.size()) & (c.right == r.size()), "counts"); auto s = o.GetIndices(); __vp_assert(s.size() == l.size() + r.size(), "size"); bool ok = true; for (size_t i = 0; i < r.size(); ++i) ok = ok & (s[r.size() - 1 - i] == r[i]); for (size_t i = 0; i < l.size(); ++i) ok = ok & (s[r.size() + i] == l[i]); __vp_assert(ok, "right side backwards, then left side forwards");
}
static void History(int steps, bool move) {
  StrokeOutline o; std::vector<uint32_t> l, r; Same(o, l, r);
  for (int s = 0; s < steps; ++s) {
    if (__vp_concretize(__vp_range(no[s], 0, 1))) { size_t a = __vp_concretize(__vp_range(nl[s], 0, 7)), b = __vp_concretize(__vp_range(nr[s], 0, 7)); o.TruncateIndices({a, b}); if (a < l.size()) l.resize(a); if (b < r.size()) r.resize(b); }
    else { int a = __vp_concretize(__vp_range(nl[s], 0, 3)), b = __vp_concretize(__vp_range(nr[s], 0, 3)); std::vector<uint32_t> x, y; for (int i = 0; i < a; ++i) { x.push_back(__vp_u32(nv[s][i])); l.push_back(x.back()); } for (int i = 0; i < b; ++i) { y.push_back(__vp_u32(nv[s][3 + i])); r.push_back(y.back()); } o.AppendNewIndices(absl::MakeConstSpan(x.data(), x.size()), absl::MakeConstSpan(y.data(), y.size())); }
    Same(o, l, r);
  }
  if (move) { StrokeOutline p = std::move(o); Same(p, l, r); } __vp_reach("end");
}
VP_ENTRY(e01_history) { History(2, true); }
VP_ENTRY(e01_append3) { // three appends in a row
  StrokeOutline o; std::vector<uint32_t> l, r; for (int s = 0; s < 3; ++s) { int a = __vp_concretize(__vp_range(nl[s], 0, 3)), b = __vp_concretize(__vp_range(nr[s], 0, 3)); std::vector<uint32_t> x, y; for (int i = 0; i < a; ++i) { x.push_back(__vp_u32(nv[s][i])); l.push_back(x.back()); } for (int i = 0; i < b; ++i) { y.push_back(__vp_u32(nv[s][3 + i])); r.push_back(y.back()); } o.AppendNewIndices(absl::MakeConstSpan(x.data(), x.size()), absl::MakeConstSpan(y.data(), y.size())); } Same(o, l, r); __vp_reach("end");
}
VP_ENTRY(e01_refill) { // truncating and refilling after the storage has grown
  StrokeOutline o; std::vector<uint32_t> l, r; int a = __vp_concretize(__vp_range("n", 0, 9)), b = __vp_concretize(__vp_range("m", 0, 9)); for (int i = 0; i < a; ++i) l.push_back(100 + i); for (int i = 0; i < b; ++i) r.push_back(200 + i); o.AppendNewIndices(l, r); size_t c = __vp_concretize(__vp_range("c", 0, 10)); size_t d = c / 2; o.TruncateIndices({c, d}); if (c < l.size()) l.resize(c); if (d < r.size()) r.resize(d); std::vector<uint32_t> x, y; for (int i = 0; i < (int)c % 4; ++i) { x.push_back(__vp_u32(nv[0][i])); l.push_back(x.back()); } for (int i = 0; i < 3; ++i) { y.push_back(__vp_u32(nv[0][3 + i])); r.push_back(y.back()); } o.AppendNewIndices(x, y); Same(o, l, r); __vp_reach("end");
}
VP_ENTRY_T(e01_history3) { History(3, false); }
// ---- updates
static Envelope Env(const char* p, const char* a, const char* b, const char* c, const char* d) { Envelope e; if (__vp_bool(p)) { float x = __vp_f32(a), y = __vp_f32(b), z = __vp_f32(c), w = __vp_f32(d); __vp_assume((x == x) & (y == y) & (z == z) & (w == w)); e.Add(Point{x, y}); e.Add(Point{z, w}); } return e; }
static std::optional<uint32_t> Opt(const char* p, const char* v) { if (__vp_bool(p)) return __vp_u32(v); return std::nullopt; }
static std::optional<uint32_t> Min(std::optional<uint32_t> a, std::optional<uint32_t> b) { if (!a) return b; if (!b) return a; return *a < *b ? a : b; }
VP_ENTRY(e01_update) {
  StrokeShapeUpdate u{.region = Env("p", "x0", "y0", "x1", "y1"), .first_index_offset = Opt("hi", "i"), .first_vertex_offset = Opt("hv", "v")}, w{.region = Env("q", "z0", "w0", "z1", "w1"), .first_index_offset = Opt("gi", "j"), .first_vertex_offset = Opt("gv", "k")}; auto u0 = u; auto w0 = w; u.Add(w);
  __vp_assert(u.first_index_offset == Min(u0.first_index_offset, w0.first_index_offset), "first index is the smaller one"); __vp_assert(u.first_vertex_offset == Min(u0.first_vertex_offset, w0.first_vertex_offset), "first vertex is the smaller one");
  __vp_assert(u.region.IsEmpty() == (u0.region.IsEmpty() && w0.region.IsEmpty()), "empty exactly when both are");
  if (!u.region.IsEmpty()) { Rect r = *u.region.AsRect(); bool ok = true; float xm = 0, xM = 0, ym = 0, yM = 0; bool any = false; for (const Envelope* e : {&u0.region, &w0.region}) if (!e->IsEmpty()) { Rect s = *e->AsRect(); if (!any) { xm = s.XMin(); xM = s.XMax(); ym = s.YMin(); yM = s.YMax(); any = true; } else { xm = s.XMin() < xm ? s.XMin() : xm; ym = s.YMin() < ym ? s.YMin() : ym; xM = s.XMax() > xM ? s.XMax() : xM; yM = s.YMax() > yM ? s.YMax() : yM; } } ok = (r.XMin() == xm) & (r.XMax() == xM) & (r.YMin() == ym) & (r.YMax() == yM); __vp_assert(ok, "joined region"); }
  __vp_assert(w.first_index_offset == w0.first_index_offset && w.first_vertex_offset == w0.first_vertex_offset, "the other update is untouched"); __vp_reach("end");
}
