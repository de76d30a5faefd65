// SRC: ink/strokes/in_progress_stroke.cc ink/strokes/stroke.cc ink/strokes/internal/stroke_shape_builder.cc ink/strokes/internal/stroke_vertex.cc ink/strokes/internal/legacy_vertex.cc ink/strokes/internal/stroke_shape_update.cc ink/strokes/internal/stroke_input_modeler.cc ink/strokes/internal/stroke_outline.cc ink/strokes/internal/brush_tip_modeler.cc ink/strokes/internal/brush_tip_modeler_helpers.cc ink/strokes/internal/brush_tip_state.cc ink/strokes/internal/easing_implementation.cc ink/strokes/internal/brush_tip_extruder.cc ink/strokes/internal/brush_tip_extrusion.cc ink/strokes/internal/brush_tip_shape.cc ink/strokes/internal/circular_extrusion_helpers.cc ink/strokes/internal/constrain_brush_tip_extrusion.cc ink/strokes/internal/rounded_polygon.cc ink/strokes/internal/brush_tip_extruder/geometry.cc ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc ink/strokes/internal/brush_tip_extruder/derivative_calculator_helpers.cc ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc ink/strokes/internal/brush_tip_extruder/find_clockwise_winding_segment.cc ink/strokes/internal/brush_tip_extruder/simplify.cc ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc ink/strokes/internal/brush_tip_extruder/extruded_vertex.cc ink/brush/brush.cc ink/brush/brush_family.cc ink/brush/brush_coat.cc ink/brush/brush_tip.cc ink/brush/brush_paint.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/color/color.cc ink/color/color_space.cc ink/types/uri.cc ink/types/duration.cc ink/types/physical_distance.cc ink/strokes/input/stroke_input_batch.cc ink/strokes/input/stroke_input.cc ink/strokes/input/internal/stroke_input_validation_helpers.cc ink/geometry/partitioned_mesh.cc ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/circle.cc ink/geometry/internal/legacy_segment_intersection.cc ink/geometry/internal/legacy_triangle_contains.cc ink/geometry/internal/legacy_vector_utils.cc ink/geometry/intersects.cc ink/geometry/distance.cc ink/geometry/affine_transform.cc ink/geometry/quad.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// FLAGS: -DVP_STRCAT
// OPT: budget=200
// OPT: total=600
// BOUND: single tips of 8 shapes and strokes of three to five tips with distinct colour shifts; one size, position, angle or shift symbolic on a grid of 16 to 256 values; epsilon 1/8 and 1/4; particle texture coordinates compared within 1/4096
// ASSUME: the external ink-stroke-modeler library is replaced by the identity
// ASSUME: simplification may move the outline by at most the simplification threshold (= epsilon), arcs by at most the chord height (= epsilon)
#include <algorithm>
#include <cmath>
#include <vector>

#include "ink/brush/brush_coat.h"
#include "ink/brush/brush_family.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/brush_tip_extruder.h"
#include "ink/strokes/internal/brush_tip_shape.h"
#include "ink/strokes/internal/stroke_shape_builder.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "tip_hull.h"
#include "vp.h"
using namespace ink; using namespace ink::strokes_internal;
// ---- stand-in for the stroke modeler: the identity
namespace ink::stroke_model {
absl::Status StrokeModeler::Reset(const StrokeModelParams&) { return absl::OkStatus(); }
absl::Status StrokeModeler::Update(const Input& i, std::vector<Result>& r) { Result x; x.position = i.position; x.velocity = {1, 0}; x.acceleration = {0, 0}; x.time = i.time; x.pressure = i.pressure; x.tilt = i.tilt; x.orientation = i.orientation; r.push_back(x); return absl::OkStatus(); }
void StrokeModeler::Save() {}
void StrokeModeler::Restore() {}
}  // namespace ink::stroke_model
typedef std::vector<BrushTipState> Sts;
static BrushTipState St(float x, float y, float w, float h, float round, float rot = 0, float slant = 0, float pinch = 0) { BrushTipState s; s.position = {x, y}; s.width = w; s.height = h; s.percent_radius = round; s.rotation = Angle::Radians(rot); s.slant = Angle::Radians(slant); s.pinch = pinch; return s; }
static BrushTipState Col(BrushTipState s, float op, float hue, float sat, float lum) { s.opacity_multiplier = op; s.hue_offset_in_full_turns = hue; s.saturation_multiplier = sat; s.luminosity_shift = lum; return s; }
struct Ext { MutableMesh m{StrokeVertex::FullMeshFormat()}; BrushTipExtruder e; Ext(float eps, bool particles) { e.StartStroke(eps, particles, m); } };
static bool Shifts(const StrokeVertex::NonPositionAttributes& a, const BrushTipState& s) { return (a.opacity_shift == s.opacity_multiplier - 1) & (a.hsl_shift[0] == s.hue_offset_in_full_turns) & (a.hsl_shift[1] == s.saturation_multiplier - 1) & (a.hsl_shift[2] == s.luminosity_shift); }
// unit square coordinates of p in the unslanted, unpinched box of the tip
static bool Uv(const StrokeVertex::NonPositionAttributes& a, Point p, const BrushTipState& s) {
  double c = std::cos((double)s.rotation.ValueInRadians()), n = std::sin((double)s.rotation.ValueInRadians()), dx = (double)p.x - s.position.x, dy = (double)p.y - s.position.y, u = (c * dx + n * dy) / s.width + 0.5, v = (-n * dx + c * dy) / s.height + 0.5;
  u = std::fmin(1.0, std::fmax(0.0, u)); v = std::fmin(1.0, std::fmax(0.0, v)); return (std::fabs(a.surface_uv.x - u) < 0.000244) & (std::fabs(a.surface_uv.y - v) < 0.000244);
}
static bool Unit(Point p) { return (p.x >= 0) & (p.x <= 1) & (p.y >= 0) & (p.y <= 1); }
// one tip alone (one thinner than epsilon may simplify to nothing): its shape, its shifts, its texture coordinates; then nothing of it after an empty stroke
static void Single(const BrushTipState& s, float eps, bool particles, bool fixed) {
  Ext x(eps, particles); Sts one{s}; auto u = fixed ? x.e.ExtendStroke(one, {}) : x.e.ExtendStroke({}, one); bool drawn = (s.width >= eps) | (s.height >= eps); if (!drawn) { __vp_assert(x.m.VertexCount() == 0 && x.m.TriangleCount() == 0 && u.region.IsEmpty() && x.e.GetBounds().IsEmpty(), "nothing is drawn for an invisible tip"); __vp_reach("invisible"); return; }
  uint32_t n = x.m.VertexCount(); if ((n < 3) & ((s.width < eps) | (s.height < eps))) { __vp_assert(x.m.TriangleCount() == 0, "no triangle without three vertices"); return; } __vp_assert(n >= 3 && x.m.TriangleCount() >= 1, "a visible tip is drawn"); Hull h(BrushTipShape(s, eps)); double tol = 1e-3;
  std::vector<Point> ps; for (uint32_t i = 0; i < n; ++i) { auto v = StrokeVertex::GetFromMesh(x.m, i); ps.push_back(v.position); auto& a = v.non_position_attributes; __vp_assert(Shifts(a, s), "vertices carry the shifts of the tip"); __vp_assert(Unit(a.surface_uv), "texture coordinates are in the unit square"); __vp_assert(particles ? Uv(a, v.position, s) : (a.surface_uv.x == 0) & (a.surface_uv.y == 0), "texture coordinates are those of the tip"); __vp_assert(h.Signed(v.position.x, v.position.y) <= h.r + tol, "no vertex is outside of the tip"); }
  for (int k = 0; k < 8; ++k) { static const double dx[8] = {1, 0.70710678, 0, -0.70710678, -1, -0.70710678, 0, 0.70710678}, dy[8] = {0, 0.70710678, 1, 0.70710678, 0, -0.70710678, -1, -0.70710678}; double b = -1e30; for (auto& p : ps) b = std::fmax(b, p.x * dx[k] + p.y * dy[k]); __vp_assert(b >= h.Support(dx[k], dy[k]) - 2 * eps - tol, "the tip is covered up to epsilon"); }
  __vp_assert(!u.region.IsEmpty(), "a region is updated"); __vp_reach("drawn");
}
static BrushTipState Base(int i, float x, float y, float k) {
  switch (i) {
    case 0: return St(x, y, 2 * k, 2 * k, 1);
    case 1: return St(x, y, 3 * k, k, 0);
    case 2: return St(x, y, 2 * k, 4 * k, 0.5f);
    case 3: return St(x, y, 4 * k, 2 * k, 0, 0.75f);
    case 4: return St(x, y, 2 * k, 2 * k, 0, 0, 0.5f);
    case 5: return St(x, y, 2 * k, 2 * k, 0.25f, 0, 0, 0.5f);
    case 6: return St(x, y, 4 * k, 2 * k, 0.25f, -0.5f, -0.75f, 0.25f);
    default: return St(x, y, 3 * k, 3 * k, 0, 2, 0.25f, 1);
  }
}
static void Shape(int i) { float x = vp::grid("x", -8, 7, 1); bool p = __vp_bool("particles"), f = __vp_bool("fixed"); p = __vp_concretize(p); f = __vp_concretize(f); Single(Col(Base(i, x, 1, 1), 0.5f, 0.25f, 1.5f, -0.25f), 0.125f, p, f); }
VP_ENTRY(e06_shape_circle) { Shape(0); }
VP_ENTRY(e06_shape_rect) { Shape(1); }
VP_ENTRY(e06_shape_round) { Shape(2); }
VP_ENTRY(e06_shape_rotated) { Shape(3); }
VP_ENTRY(e06_shape_slanted) { Shape(4); }
VP_ENTRY(e06_shape_pinched) { Shape(5); }
VP_ENTRY(e06_shape_all) { Shape(6); }
VP_ENTRY(e06_shape_triangle) { Shape(7); }
// one dimension around epsilon
VP_ENTRY(e06_thin) { float x = vp::grid("x", 0, 15, 1); int k = __vp_range("k", 0, 15); k = __vp_concretize(k); float w = k / 32.0f; bool p = __vp_bool("particles"), flat = __vp_bool("flat"); p = __vp_concretize(p); flat = __vp_concretize(flat); BrushTipState s = St(x, 2, flat ? 2 : w, flat ? w : 2, 0); p = p & (w > 0); Single(s, 0.25f, p, true); }
VP_ENTRY(e06_small) { float x = vp::grid("x", 0, 15, 1); int k = __vp_range("k", 0, 15); k = __vp_concretize(k); bool r = __vp_bool("round"); r = __vp_concretize(r); Single(St(x, 2, k / 32.0f, 0.125f, r ? 1 : 0), 0.25f, false, false); }
VP_ENTRY(e06_size) { float w = vp::grid("w", 1, 32, 2); Single(St(1, 2, w, 2, 0, 0.5f), 0.125f, true, true); }
// a moving tip thinner than epsilon draws the area it sweeps
VP_ENTRY(e06_sweep) {
  float y = vp::grid("y", 0, 15, 1); bool flat = __vp_bool("flat"), vol = __vp_bool("volatile"); int k = __vp_range("k", 0, 8); k = __vp_concretize(k); flat = __vp_concretize(flat); vol = __vp_concretize(vol); float w = k / 32.0f; Sts s; for (int i = 0; i < 3; ++i) s.push_back(Col(flat ? St(y, i * 2, 3, w, 0) : St(i * 2, y, w, 3, 0), 0.5f, 0.25f, 1.5f, 0.125f));
  Ext x(0.25f, false); x.e.ExtendStroke(Sts(s.begin(), s.begin() + (vol ? 1 : 3)), Sts(s.begin() + (vol ? 1 : 3), s.end())); Envelope b = x.e.GetBounds(); __vp_assert(!b.IsEmpty() && x.m.TriangleCount() >= 2, "the sweep of a thin tip is drawn"); if (b.IsEmpty()) return; Rect r = *b.AsRect(); float e = 0.26f, x0 = flat ? y - 1.5f : -w / 2, x1 = flat ? y + 1.5f : 4 + w / 2, y0 = flat ? -w / 2 : y - 1.5f, y1 = flat ? 4 + w / 2 : y + 1.5f;
  __vp_assert((r.XMin() <= x0 + e) & (r.XMax() >= x1 - e) & (r.YMin() <= y0 + e) & (r.YMax() >= y1 - e), "the sweep covers the tips"); __vp_assert((r.XMin() >= x0 - 0.001f) & (r.XMax() <= x1 + 0.001f) & (r.YMin() >= y0 - 0.001f) & (r.YMax() <= y1 + 0.001f), "the sweep stays within the tips");
  double area = 0; for (uint32_t i = 0; i < x.m.TriangleCount(); ++i) { auto t = x.m.TriangleIndices(i); Point a = x.m.VertexPosition(t[0]), c = x.m.VertexPosition(t[1]), d = x.m.VertexPosition(t[2]); area += std::fabs(((double)c.x - a.x) * (d.y - a.y) - ((double)c.y - a.y) * (d.x - a.x)) / 2; } __vp_assert((area >= 10) & (area <= 13.5), "the area is that of the sweep"); __vp_reach("sweep");
}
// any colour shift
VP_ENTRY(e06_color) { BrushTipState s = Col(St(1, 2, 2, 1, 0), __vp_f32_range("o", 0, 2), __vp_f32_range("h", 0, 1), __vp_f32_range("s", 0, 2), __vp_f32_range("l", -1, 1)); Single(s, 0.25f, false, __vp_bool("fixed")); }
// several tips: every vertex lies on a tip and carries the shifts (and texture coordinates) of that tip; every tip appears
static void Multi(const Sts& f, const Sts& v, bool particles, const std::vector<int>& shown) {
  Ext x(0.125f, particles); x.e.ExtendStroke(f, v); Sts all = f; for (auto& s : v) all.push_back(s); std::vector<Hull> hs; for (auto& s : all) hs.push_back(Hull(BrushTipShape(s, 0.125f))); std::vector<int> seen(all.size());
  for (uint32_t i = 0; i < x.m.VertexCount(); ++i) { auto w = StrokeVertex::GetFromMesh(x.m, i); auto& a = w.non_position_attributes; bool ok = false; for (size_t k = 0; k < all.size(); ++k) { bool q = Shifts(a, all[k]) & (hs[k].Signed(w.position.x, w.position.y) <= hs[k].r + 2e-3) & (particles ? Uv(a, w.position, all[k]) : (a.surface_uv.x == 0) & (a.surface_uv.y == 0)); ok = ok | q; seen[k] = seen[k] | q; } __vp_assert(ok, "vertices carry the attributes of the tip they lie on"); }
  for (int k : shown) __vp_assert(seen[k], "every tip has vertices"); for (size_t k = 0; k < all.size(); ++k) if (all[k].width < 0.125f && all[k].height < 0.125f) __vp_assert(!seen[k], "invisible tips have none"); __vp_reach("multi");
}
static BrushTipState M(int k, float x, float y, float w, float h, float r) { return Col(St(x, y, w, h, r), k * 0.25f, k * 0.125f, 2 - k * 0.25f, k * 0.125f - 0.5f); }
static bool Mid(float v, float a, float b) { return ((v >= a) & (v <= b)) | ((v >= b) & (v <= a)); }
static bool Between(const StrokeVertex::NonPositionAttributes& a, const BrushTipState& s, const BrushTipState& t) { return Mid(a.opacity_shift, s.opacity_multiplier - 1, t.opacity_multiplier - 1) & Mid(a.hsl_shift[0], s.hue_offset_in_full_turns, t.hue_offset_in_full_turns) & Mid(a.hsl_shift[1], s.saturation_multiplier - 1, t.saturation_multiplier - 1) & Mid(a.hsl_shift[2], s.luminosity_shift, t.luminosity_shift); }
// along a turn, vertices lie within the joined tips and carry the shifts of a tip or, where sides cross, values between those of two neighbours; the caps are exact
static void Turn(float round) {
  float y = vp::grid("y", -4, 3, 1); bool vol = __vp_bool("volatile"); vol = __vp_concretize(vol); Sts s{M(0, 0, 0, 2, 1, round), M(1, 4, 1, 2, 1, round), M(2, 8, y, 2, 1, round), M(3, 12, 4, 2, 1, round)}; Sts f(s.begin(), s.begin() + (vol ? 2 : 4)), v(s.begin() + (vol ? 2 : 4), s.end());
  Ext x(0.125f, false); x.e.ExtendStroke(f, v); bool seen[4] = {};
  for (uint32_t i = 0; i < x.m.VertexCount(); ++i) { auto w = StrokeVertex::GetFromMesh(x.m, i); auto& a = w.non_position_attributes; bool ok = false; for (int k = 0; k < 3; ++k) ok = ok | (Between(a, s[k], s[k + 1]) & (w.position.x >= s[k].position.x - 1.001f) & (w.position.x <= s[k + 1].position.x + 1.001f)); __vp_assert(ok, "shifts lie between those of two neighbouring tips"); for (int k = 0; k < 4; ++k) seen[k] = seen[k] | Shifts(a, s[k]);
    __vp_assert((w.position.x >= 0) | Shifts(a, s[0]), "the start cap has the shifts of the first tip"); __vp_assert((w.position.x <= 12) | Shifts(a, s[3]), "the end cap has the shifts of the last tip"); __vp_assert((a.surface_uv.x == 0) & (a.surface_uv.y == 0), "no texture coordinates"); }
  for (int k = 0; k < 4; ++k) __vp_assert(seen[k], "every tip has vertices"); __vp_reach("turn");
}
VP_ENTRY(e06_turn_rect) { Turn(0); }
VP_ENTRY(e06_turn_round) { Turn(1); }
static void Split(bool particles) { float x = vp::grid("x", 6, 21, 0); bool vol = __vp_bool("volatile"); vol = __vp_concretize(vol); Sts s{M(0, 0, 0, 2, 2, 1), M(1, 4, 1, 2, 2, 1), M(2, 5, 5, 0, 0, 1), M(3, x, 0, 1, 2, 0), M(4, x + 2, 4, 0, 0, 0), M(5, x, 8, 3, 1, 0), M(6, x + 4, 8, 3, 2, 0)}; Sts f(s.begin(), s.begin() + (vol ? 2 : 5)), v(s.begin() + (vol ? 2 : 5), s.end()); Multi(f, v, particles, {0, 1, 3, 5, 6}); }
VP_ENTRY(e06_breaks) { Split(false); }
VP_ENTRY(e06_breaks_particle) { Split(true); }
// from a brush coat: texture coordinates exactly for particle tips with a single winding layer, and the shifts its behaviors ask for
static int Pick(const char* n, int hi) { return __vp_concretize(__vp_range(n, 0, hi)); }
static void Draw(StrokeShapeBuilder& b, const BrushCoat& coat, float x) { b.StartStroke(BrushFamily::DefaultInputModel(), coat, 2, 0.125f); StrokeInputBatch in, none; StrokeInput i; i.position = {x, 1}; bool ok = in.Append(i).ok(); __vp_assert(ok, "valid input"); b.ExtendStroke(in, none, Duration32::Zero()); }
VP_ENTRY(e06_layers) {
  float x = vp::grid("x", -8, 7, 1); StrokeShapeBuilder b; bool again = Pick("again", 1);
  if (again) { BrushCoat w; w.tips.resize(1); w.tips[0].particle_gap_distance_scale = 1; w.paint.texture_layers.resize(1); w.paint.texture_layers[0].mapping = BrushPaint::TextureMapping::kWinding; Draw(b, w, 1); }
  BrushCoat c; c.tips.resize(1); int gap = Pick("gap", 2), n = Pick("layers", 2), winding = Pick("winding", (1 << n) - 1); if (gap == 1) c.tips[0].particle_gap_distance_scale = 2; if (gap == 2) c.tips[0].particle_gap_duration = Duration32::Millis(10); c.paint.texture_layers.resize(n); for (int i = 0; i < n; ++i) { if (winding & (1 << i)) c.paint.texture_layers[i].mapping = BrushPaint::TextureMapping::kWinding; }
  Draw(b, c, x); const MutableMesh& m = b.GetMesh(); __vp_assert(m.VertexCount() >= 3, "a dot is drawn"); bool uv = (gap != 0) & (n == 1) & (winding == 1), some = false; BrushTipState s = St(x, 1, 2, 2, 1);
  for (uint32_t i = 0; i < m.VertexCount(); ++i) { auto v = StrokeVertex::GetFromMesh(m, i); auto& a = v.non_position_attributes; some = some | (a.surface_uv.x != 0) | (a.surface_uv.y != 0); __vp_assert(Shifts(a, s), "no colour shift"); if (uv) __vp_assert(Uv(a, v.position, s), "texture coordinates are those of the tip"); } __vp_assert(some == uv, "texture coordinates exactly for particles with one winding layer"); __vp_reach("layers");
}
VP_ENTRY(e06_shifts) {
  typedef BrushBehavior B; float k = vp::grid("k", 0, 15, 4); int t = Pick("target", 3); static const B::Target tg[4] = {B::Target::kOpacityMultiplier, B::Target::kHueOffsetInRadians, B::Target::kSaturationMultiplier, B::Target::kLuminosity}; B::ConstantNode cn; cn.value = k; B::TargetNode tn; tn.target = tg[t]; tn.target_modifier_range = t == 3 ? std::array<float, 2>{-0.5f, 0.5f} : std::array<float, 2>{0, 2}; B bb; bb.nodes = {cn, tn}; BrushCoat c; c.tips.resize(1); c.tips[0].behaviors.push_back(bb);
  StrokeShapeBuilder b; Draw(b, c, 1); const MutableMesh& m = b.GetMesh(); __vp_assert(m.VertexCount() >= 3, "a dot is drawn"); double v = t == 3 ? k - 0.5 : 2.0 * k;
  for (uint32_t i = 0; i < m.VertexCount(); ++i) { auto a = StrokeVertex::GetFromMesh(m, i).non_position_attributes; float got[4] = {a.opacity_shift + 1, a.hsl_shift[0] * 6.2831853f, a.hsl_shift[1] + 1, a.hsl_shift[2]}, none[4] = {1, 0, 1, 0}; for (int j = 0; j < 4; ++j) __vp_assert(j == t ? std::fabs(got[j] - v) < 1e-5 : got[j] == none[j], "the shift that was asked for and no other"); } __vp_reach("shifts");
}
// tips swallowed by a later tip leave nothing behind, whatever came before the last break
VP_ENTRY(e06_swallowed) {
  float x = vp::grid("x", 8, 23, 1); bool vol = Pick("volatile", 1), lead = Pick("lead", 1); int parts = Pick("small", 2); Sts f, v; if (lead) { f.push_back(M(0, -9, 0, 2, 2, 1)); f.push_back(M(1, -6, 1, 2, 2, 1)); f.push_back(St(-5, 0, 0, 0, 1)); } Sts small; for (int i = 0; i <= parts; ++i) small.push_back(M(2, x + i, i & 1, 1, 1, 1)); BrushTipState big = M(5, x, 0, 10, 10, 1);
  Ext a(0.125f, false), b(0.125f, false); Sts one = f; one.push_back(big); b.e.ExtendStroke(one, {}); Sts all = f; for (auto& s : small) all.push_back(s); if (vol) a.e.ExtendStroke(all, {big}); else { all.push_back(big); a.e.ExtendStroke(all, {}); }
  __vp_assert(a.m.VertexCount() == b.m.VertexCount() && a.m.TriangleCount() == b.m.TriangleCount(), "swallowed tips leave nothing behind"); if (a.m.VertexCount() == b.m.VertexCount()) for (uint32_t i = 0; i < a.m.VertexCount(); ++i) { auto p = StrokeVertex::GetFromMesh(a.m, i), q = StrokeVertex::GetFromMesh(b.m, i); __vp_assert((p.position.x == q.position.x) & (p.position.y == q.position.y) & (p.non_position_attributes == q.non_position_attributes), "same vertices as without them"); } __vp_reach("swallowed");
}
