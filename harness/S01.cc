// SRC: ink/strokes/input/stroke_input_batch.cc ink/strokes/input/stroke_input.cc ink/strokes/input/internal/stroke_input_validation_helpers.cc ink/geometry/affine_transform.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/types/duration.cc ink/types/physical_distance.cc
// OPT: budget=120
// BOUND: batches of up to 3 inputs (4 after appending an input or a batch of 2), every field of the added inputs any bit pattern, every field of the inputs already held any valid value
// ASSUME: error texts are not modelled
// ASSUME: a Duration32 never holds NaN (property T01)
#include <vector>

#include "ink/strokes/input/stroke_input_batch.h"
#include "strokes_ref.h"
using namespace ink; using namespace ref;
VP_ENTRY(s01_create1) { StrokeInput a = Any(0); auto b = StrokeInputBatch::Create({a}); __vp_assert(b.ok() == Single(a), "single input accepted exactly when valid"); if (b.ok()) __vp_assert(b->Size() == 1, "size"); __vp_reach("end"); }
VP_ENTRY(s01_create2) { StrokeInput a = Any(0), c = Any(1); auto b = StrokeInputBatch::Create({a, c}); __vp_assert(b.ok() == (Single(a) & Single(c) & Pair(a, c)), "two inputs accepted exactly when valid and consistent"); if (b.ok()) __vp_assert(b->Size() == 2, "size"); __vp_reach("end"); }
VP_ENTRY(s01_append_new) { StrokeInputBatch b; StrokeInput a = Any(0); bool ok = b.Append(a).ok(); __vp_assert(ok == Single(a), "append to an empty batch"); __vp_assert(b.Size() == ok, "size"); __vp_reach("end"); }
static StrokeInputBatch Held(int n, const Format& f, StrokeInput* in) { StrokeInputBatch b; for (int i = 0; i < n; i++) { in[i] = Valid(i, f); if (i) __vp_assume(Pair(in[i - 1], in[i])); bool ok = b.Append(in[i]).ok(); __vp_assert(ok, "valid inputs are accepted"); } return b; }
VP_ENTRY(s01_append) { StrokeInput in[3]; Format f = AnyFormat(); StrokeInputBatch b = Held(2, f, in); StrokeInput a = Any(3); bool ok = b.Append(a).ok(); __vp_assert(ok == (Single(a) & Pair(in[1], a)), "append accepted exactly when valid and consistent with the last input"); __vp_assert(b.Size() == (ok ? 3 : 2), "size"); __vp_reach("end"); }
VP_ENTRY(s01_append_span) { StrokeInput in[3]; Format f = AnyFormat(); StrokeInputBatch b = Held(1, f, in); StrokeInput a = Valid(3, f), c = Any(4); std::vector<StrokeInput> v = {a, c}; bool ok = b.Append(absl::MakeConstSpan(v)).ok(); __vp_assert(ok == (Single(c) & Pair(in[0], a) & Pair(a, c)), "appended sequence accepted exactly when consistent"); __vp_assert(b.Size() == (ok ? 3 : 1), "size"); __vp_reach("end"); }
VP_ENTRY(s01_append_batch) { StrokeInput in[3]; Format f = AnyFormat(); StrokeInputBatch b = Held(1, f, in); StrokeInput c = Any(4); auto o = StrokeInputBatch::Create({c}); if (!o.ok()) return; bool ok = b.Append(*o).ok(); __vp_assert(ok == Pair(in[0], c), "appended batch accepted exactly when consistent at the seam"); __vp_assert(b.Size() == (ok ? 2 : 1), "size"); __vp_reach("end"); }
VP_ENTRY(s01_append_batches) { StrokeInput in[3]; Format f = AnyFormat(); StrokeInputBatch b = Held(2, f, in); StrokeInput a = Valid(3, f), c = Valid(4, f); __vp_assume(Pair(a, c)); auto o = StrokeInputBatch::Create({a, c}); __vp_assert(o.ok(), "a valid batch"); if (!o.ok()) return; bool ok = b.Append(*o).ok(); __vp_assert(ok == Pair(in[1], a), "appended batch accepted exactly when its first input follows the last one"); __vp_assert(b.Size() == (ok ? 4 : 2), "size"); __vp_reach("end"); }
VP_ENTRY(s01_set) { StrokeInput in[3]; Format f = AnyFormat(); StrokeInputBatch b = Held(3, f, in); StrokeInput a = Any(3); int k = __vp_concretize(__vp_range("k", 0, 2)); bool ok = b.Set(k, a).ok(); bool want = Single(a); if (k > 0) want = want & Pair(in[k - 1], a); if (k < 2) want = want & Pair(a, in[k + 1]); __vp_assert(ok == want, "overwrite accepted exactly when valid and consistent with both neighbours"); __vp_assert(b.Size() == 3, "size"); __vp_reach("end"); }
VP_ENTRY(s01_set_only) { StrokeInput in[3]; Format f = AnyFormat(); StrokeInputBatch b = Held(1, f, in); StrokeInput a = Any(3); bool ok = b.Set(0, a).ok(); __vp_assert(ok == Single(a), "the only input may change format"); __vp_assert(b.Size() == 1, "size"); __vp_reach("end"); }
VP_ENTRY(s01_clear_reuse) { StrokeInput in[3]; Format f = AnyFormat(); StrokeInputBatch b = Held(2, f, in); int how = __vp_concretize(__vp_range("how", 0, 2)); StrokeInputBatch keep; if (how == 1) keep = b; if (how == 2) b.Erase(0); else b.Clear(); __vp_assert(b.IsEmpty() && b.GetToolType() == StrokeInput::ToolType::kUnknown && !b.HasPressure() && !b.HasTilt() && !b.HasOrientation() && !b.HasStrokeUnitLength(), "cleared batch has no format"); StrokeInput a = Any(3); __vp_assert(b.Append(a).ok() == Single(a), "a cleared batch accepts any format"); __vp_reach("end"); }
VP_ENTRY_T(s01_create3) { StrokeInput a = Any(0), c = Any(1), d = Any(2); auto b = StrokeInputBatch::Create({a, c, d}); __vp_assert(b.ok() == (Single(a) & Single(c) & Single(d) & Pair(a, c) & Pair(c, d)), "three inputs"); __vp_reach("end"); }
