// SRC: ink/brush/brush_paint.cc ink/types/uri.cc ink/geometry/angle.cc ink/geometry/vec.cc
// OPT: budget=120
// BOUND: every value of every enumerator and float field of one texture layer; 0 to 2 keyframes with any progress and any subset of optional values of any float; 0 to 3 layers with any mappings
// ASSUME: error texts are not modelled; asset URIs are fixed texture and brush-family URIs (URI parsing is T03)
#include "ink/brush/brush_paint.h"
#include "vp.h"
using namespace ink; typedef BrushPaint BP;
static bool Fin(float x) { return (x - x) == 0; }
static bool In(int v, int n) { return (v >= 0) & (v < n); }
static bool Unit(float x) { return (x >= 0) & (x <= 1); }
static bool LOk(const BP::TextureLayer& l) { auto s = brush_internal::ValidateBrushPaintTextureLayer(l); if (!s.ok()) __vp_assert(s.code() == absl::StatusCode::kInvalidArgument, "invalid argument"); return s.ok(); }
static bool Ok(const BP& p) { auto s = brush_internal::ValidateBrushPaint(p); if (!s.ok()) __vp_assert(s.code() == absl::StatusCode::kInvalidArgument, "invalid argument"); return s.ok(); }
static Uri Tex() { return *Uri::Parse("/texture:a"); }
static BP::TextureLayer Layer() { BP::TextureLayer l; l.color_texture_uri = Tex(); return l; }
VP_ENTRY(b05_enums) {
  int m = __vp_i32("m"), o = __vp_i32("o"), u = __vp_i32("u"), wx = __vp_i32("wx"), wy = __vp_i32("wy"), bm = __vp_i32("bm"); BP::TextureLayer l = Layer(); l.mapping = (BP::TextureMapping)m; l.origin = (BP::TextureOrigin)o; l.size_unit = (BP::TextureSizeUnit)u; l.wrap_x = (BP::TextureWrap)wx; l.wrap_y = (BP::TextureWrap)wy; l.blend_mode = (BP::BlendMode)bm;
  bool want = In(m, 2) & In(o, 3) & In(u, 3) & In(wx, 3) & In(wy, 3) & In(bm, 12); __vp_assert(LOk(l) == want, "enumerators"); __vp_assert(Ok(BP{{l}}) == want, "paint of one layer"); __vp_reach("end");
}
VP_ENTRY(b05_numbers) {
  BP::TextureLayer l = Layer(); l.size = {__vp_f32("sx"), __vp_f32("sy")}; l.offset = {__vp_f32("ox"), __vp_f32("oy")}; l.rotation = Angle::Radians(__vp_f32("r")); l.size_jitter = {__vp_f32("jx"), __vp_f32("jy")}; l.offset_jitter = {__vp_f32("px"), __vp_f32("py")}; l.rotation_jitter = Angle::Radians(__vp_f32("rj")); l.opacity = __vp_f32("op");
  bool want = Fin(l.size.x) & Fin(l.size.y) & (l.size.x > 0) & (l.size.y > 0) & Fin(l.offset.x) & Fin(l.offset.y) & Fin(l.rotation.ValueInRadians()) & (l.size_jitter.x >= 0) & (l.size_jitter.x <= l.size.x) & (l.size_jitter.y >= 0) & (l.size_jitter.y <= l.size.y) & Unit(l.offset_jitter.x) & Unit(l.offset_jitter.y) & Fin(l.rotation_jitter.ValueInRadians()) & Unit(l.opacity);
  __vp_assert(LOk(l) == want, "numbers in range"); __vp_reach("end");
}
static bool Key(BP::TextureLayer& l, const char* const* n, bool opt) {
  BP::TextureKeyframe k; k.progress = __vp_f32(n[0]); bool want = Unit(k.progress); if (!opt) { l.keyframes.push_back(k); return want; }
  int has = __vp_concretize(__vp_range(n[1], 0, 15)); float a = __vp_f32(n[2]), b = __vp_f32(n[3]), c = __vp_f32(n[4]), d = __vp_f32(n[5]), r = __vp_f32(n[6]), o = __vp_f32(n[7]);
  if (has & 1) { k.size = Vec{a, b}; want = want & Fin(a) & Fin(b) & (a > 0) & (b > 0); } if (has & 2) { k.offset = Vec{c, d}; want = want & Unit(c) & Unit(d); } if (has & 4) { k.rotation = Angle::Radians(r); want = want & Fin(r); } if (has & 8) { k.opacity = o; want = want & Unit(o); } l.keyframes.push_back(k); return want;
}
static const char* kN0[] = {"p0", "h0", "a0", "b0", "c0", "d0", "r0", "o0"}; static const char* kN1[] = {"p1", "h1", "a1", "b1", "c1", "d1", "r1", "o1"};
VP_ENTRY(b05_keyframe) { BP::TextureLayer l = Layer(); bool want = Key(l, kN0, true); __vp_assert(LOk(l) == want, "keyframe"); __vp_reach("end"); }
VP_ENTRY(b05_keyframes) { BP::TextureLayer l = Layer(); bool w0 = Key(l, kN0, false), w1 = Key(l, kN1, true); __vp_assert(LOk(l) == (w0 & w1), "every keyframe counts"); __vp_reach("end"); }
VP_ENTRY(b05_uri) { BP::TextureLayer l = Layer(); int k = __vp_concretize(__vp_range("k", 0, 2)); l.color_texture_uri = *Uri::Parse(k == 0 ? "/texture:a" : k == 1 ? "/brush-family:a" : "//x/texture:b:2"); __vp_assert(LOk(l) == (k != 1), "texture asset type"); __vp_reach("end"); }
VP_ENTRY(b05_layers) {
  static const char* mn[] = {"m0", "m1", "m2"}; static const char* on[] = {"o0", "o1", "o2"}; int n = __vp_concretize(__vp_range("n", 0, 3)); BP p; bool want = true; for (int i = 0; i < n; i++) { BP::TextureLayer l = Layer(); int m = __vp_range(mn[i], 0, 2); l.mapping = (BP::TextureMapping)m; l.opacity = __vp_f32(on[i]); want = want & In(m, 2) & Unit(l.opacity); if (i) want = want & (p.texture_layers[0].mapping == l.mapping); p.texture_layers.push_back(l); }
  __vp_assert(Ok(p) == want, "every layer valid and all mappings equal"); __vp_assert(p == p || !want, "equal to itself"); __vp_reach("end");
}
VP_ENTRY(b05_equality) {
  BP::TextureLayer l = Layer(), q = l; int k = __vp_concretize(__vp_range("k", 0, 11)); float a = __vp_f32("a"), b = __vp_f32("b"); bool same = a == b;
#define F(i, f) case i: l.f = a; q.f = b; break;
  switch (k) { F(0, size.x) F(1, size.y) F(2, offset.x) F(3, offset.y) F(4, size_jitter.x) F(5, size_jitter.y) F(6, offset_jitter.x) F(7, offset_jitter.y) F(8, opacity) case 9: l.rotation = Angle::Radians(a); q.rotation = Angle::Radians(b); break; case 10: l.rotation_jitter = Angle::Radians(a); q.rotation_jitter = Angle::Radians(b); break; default: l.keyframes = {{.progress = a}}; q.keyframes = {{.progress = b}}; }
  __vp_assert((l == q) == same, "layers are equal exactly when every field is"); __vp_assert((BP{{l}} != BP{{q}}) == !same, "paint inequality"); __vp_reach("end");
}
