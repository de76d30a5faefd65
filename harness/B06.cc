// SRC: ink/brush/brush.cc ink/brush/brush_family.cc ink/brush/brush_coat.cc ink/brush/brush_paint.cc ink/brush/brush_tip.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/types/uri.cc ink/color/color.cc ink/color/color_space.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/types/duration.cc
// OPT: budget=60
// BOUND: all float sizes and epsilons; creation followed by up to 3 SetSize/SetEpsilon calls in any order with any arguments
// ASSUME: error texts are not modelled
#include "ink/brush/brush.h"
#include "vp.h"
using namespace ink;
static bool Fin(float x) { return (x - x) == 0; }
static bool Valid(float s, float e) { return Fin(s) & (s > 0) & Fin(e) & (e > 0) & (s >= e); }
VP_ENTRY(b06_create) { float s = __vp_f32("s"), e = __vp_f32("e"); auto b = Brush::Create(BrushFamily(), Color::Blue(), s, e); __vp_assert(b.ok() == Valid(s, e), "created exactly when valid"); if (b.ok()) { __vp_assert((b->GetSize() == s) & (b->GetEpsilon() == e), "keeps its values"); __vp_assert(b->GetColor() == Color::Blue(), "keeps its colour"); } else __vp_assert(b.status().code() == absl::StatusCode::kInvalidArgument, "invalid argument"); __vp_reach("end"); }
static void Sets(Brush b, int n) {
  static const char* on[] = {"o0", "o1", "o2"}; static const char* vn[] = {"v0", "v1", "v2"}; float s = b.GetSize(), e = b.GetEpsilon();
  for (int i = 0; i < n; i++) { bool sz = __vp_bool(on[i]); float v = __vp_f32(vn[i]); bool ok; if (sz) { ok = b.SetSize(v).ok(); __vp_assert(ok == Valid(v, e), "size set exactly when valid"); if (ok) s = v; } else { ok = b.SetEpsilon(v).ok(); __vp_assert(ok == Valid(s, v), "epsilon set exactly when valid"); if (ok) e = v; } __vp_assert((b.GetSize() == s) & (b.GetEpsilon() == e), "only a successful change changes the brush"); __vp_assert(Valid(b.GetSize(), b.GetEpsilon()), "every reachable brush is valid"); }
  __vp_assert(b.CoatCount() == 1, "family untouched"); __vp_reach("end");
}
VP_ENTRY(b06_sets) { float s = __vp_f32("s"), e = __vp_f32("e"); auto b = Brush::Create(BrushFamily(), Color::Blue(), s, e); if (b.ok()) Sets(*b, 2); }
VP_ENTRY(b06_default) { Sets(Brush(), 3); }
