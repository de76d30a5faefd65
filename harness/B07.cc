// SRC: ink/brush/brush_family.cc ink/brush/brush_coat.cc ink/brush/brush_paint.cc ink/brush/brush_tip.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/types/uri.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/types/duration.cc
// OPT: budget=120
// BOUND: 0 to 12 coats with one coat of 0 to 2 tips, of which one has any pinch, and a paint with one layer of any opacity; URI absent, brush-family or texture
// BOUND: required attributes for coats of 1 to 2 tips of up to 2 behaviours with any valid target each, and 0 to 2 texture layers with any valid mapping
// ASSUME: error texts are not modelled
#include "ink/brush/brush_family.h"
#include "vp.h"
using namespace ink; typedef BrushBehavior BB; typedef MeshFormat::AttributeId Id;
static bool Unit(float x) { return (x >= 0) & (x <= 1); }
static BrushPaint::TextureLayer Layer() { BrushPaint::TextureLayer l; l.color_texture_uri = *Uri::Parse("/texture:a"); return l; }
static void Family(int n, int at) {
  int tips = __vp_concretize(__vp_range("tips", 0, 2)), uri = __vp_concretize(__vp_range("uri", 0, 2)); float p = __vp_f32("pinch"), o = __vp_f32("opacity"); std::vector<BrushCoat> c(n); bool want = n <= 10; for (int i = 0; i < n; i++) { c[i].tips.resize(i == at ? tips : 1); if (i == at) { if (tips) c[i].tips[tips - 1].pinch = p; c[i].paint.texture_layers.push_back(Layer()); c[i].paint.texture_layers[0].opacity = o; want = want & (tips == 1) & Unit(p) & Unit(o); } }
  std::optional<Uri> u; if (uri) u = *Uri::Parse(uri == 1 ? "/brush-family:a" : "/texture:a"); want = want & (uri != 2);
  auto f = BrushFamily::Create(c, u); __vp_assert(f.ok() == want, "created exactly when valid"); if (f.ok()) { __vp_assert(f->GetCoats().size() == n, "keeps its coats"); __vp_assert(f->GetUri().has_value() == (uri == 1), "keeps its URI"); if (n) __vp_assert(__vp_same(f->GetCoats()[at].tips[0].pinch, p), "keeps its tip"); } else __vp_assert(f.status().code() == absl::StatusCode::kInvalidArgument, "invalid argument"); __vp_reach("end");
}
VP_ENTRY(b07_family) { int n = __vp_concretize(__vp_range("n", 0, 2)); Family(n, n ? n - 1 : 0); }
VP_ENTRY(b07_family_first) { Family(2, 0); }
VP_ENTRY(b07_limit) { int n = __vp_concretize(__vp_range("n", 9, 12)); std::vector<BrushCoat> c(n); for (auto& x : c) x.tips.resize(1); c[n - 1].tips[0].pinch = __vp_f32("pinch"); bool want = (n <= 10) & Unit(c[n - 1].tips[0].pinch); auto f = BrushFamily::Create(c); __vp_assert(f.ok() == want, "at most ten coats"); __vp_assert(BrushFamily::MaxBrushCoats() == 10, "limit"); __vp_reach("end"); }
VP_ENTRY(b07_uri_string) { static const char* s[] = {"", "/brush-family:a", "/texture:a", "brush", "//x/brush-family:a:3"}; int k = __vp_concretize(__vp_range("k", 0, 4)); float p = __vp_f32("pinch"); BrushTip t; t.pinch = p; auto f = BrushFamily::Create(t, BrushPaint{}, s[k]); __vp_assert(f.ok() == (((k == 0) | (k == 1) | (k == 4)) & Unit(p)), "URI strings are parsed and checked"); if (f.ok()) __vp_assert(f->GetUri().has_value() == (k != 0), "empty string is no URI"); __vp_reach("end"); }
VP_ENTRY(b07_default) { BrushFamily f; auto g = BrushFamily::Create(f.GetCoats()); __vp_assert(g.ok(), "the default family is valid"); __vp_reach("end"); }
static bool Colour(int t) { return (t == (int)BB::Target::kHueOffsetInRadians) | (t == (int)BB::Target::kSaturationMultiplier) | (t == (int)BB::Target::kLuminosity); }
static void Attrs(int tips, int behaviors, int layers) {
  static const char* tn[] = {"t0", "t1", "t2", "t3"}; static const char* mn[] = {"m0", "m1"}; BrushCoat c; bool col = false, win = false; int k = 0;
  for (int i = 0; i < tips; i++) { BrushTip t; for (int j = 0; j < behaviors; j++) { int x = __vp_range(tn[k++], 0, 14); col = col | Colour(x); t.behaviors.push_back({{BB::ConstantNode{0}, BB::TargetNode{(BB::Target)x, {0, 1}}}}); } c.tips.push_back(t); }
  for (int i = 0; i < layers; i++) { BrushPaint::TextureLayer l = Layer(); int m = __vp_range(mn[i], 0, 1); win = win | (m == 1); l.mapping = (BrushPaint::TextureMapping)m; c.paint.texture_layers.push_back(l); }
  auto ids = brush_internal::GetRequiredAttributeIds(c); int count[32] = {}; for (Id id : ids) count[__vp_concretize((int)id)]++;
  for (Id id : {Id::kPosition, Id::kSideDerivative, Id::kSideLabel, Id::kForwardDerivative, Id::kForwardLabel, Id::kOpacityShift}) __vp_assert(count[(int)id] == 1, "base attributes once"); __vp_assert(count[(int)Id::kColorShiftHsl] == (int)col, "colour shift exactly when targeted"); __vp_assert(count[(int)Id::kSurfaceUv] == (int)win, "surface UV exactly when winding"); __vp_assert(ids.size() == 6 + (int)col + (int)win, "nothing else"); __vp_reach("end");
}
VP_ENTRY(b07_attributes) { int l = __vp_concretize(__vp_range("l", 0, 2)); Attrs(1, 2, l); }
VP_ENTRY(b07_attributes_two_tips) { Attrs(2, 1, 1); }
