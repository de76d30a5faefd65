// SRC: ink/strokes/input/stroke_input_batch.cc ink/strokes/input/stroke_input.cc ink/strokes/input/internal/stroke_input_validation_helpers.cc ink/geometry/affine_transform.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/types/duration.cc ink/types/physical_distance.cc
// OPT: budget=120
// BOUND: batches of up to 3 inputs, every field of the rejected inputs any bit pattern, every field of the inputs held any valid value; shared and unshared storage
// ASSUME: error texts are not modelled
// ASSUME: a Duration32 never holds NaN (property T01)
#include <vector>

#include "ink/strokes/input/stroke_input_batch.h"
#include "strokes_ref.h"
using namespace ink; using namespace ref;
static StrokeInputBatch Held(int n, const Format& f, StrokeInput* in) { StrokeInputBatch b; for (int i = 0; i < n; i++) { in[i] = Valid(i, f); if (i) __vp_assume(Pair(in[i - 1], in[i])); bool ok = b.Append(in[i]).ok(); __vp_assume(ok); } return b; }
static void Unchanged(const StrokeInputBatch& b, int n, const Format& f, const StrokeInput* in) {
  __vp_assert(b.Size() == (size_t)n, "size unchanged"); __vp_assert(b.HasPressure() == f.p && b.HasTilt() == f.t && b.HasOrientation() == f.o, "channels unchanged"); __vp_assert((b.GetToolType() == (StrokeInput::ToolType)f.tool) & (b.HasStrokeUnitLength() == (f.unit != 0)), "tool and unit length unchanged"); for (int i = 0; i < n; i++) __vp_assert(Same(b.Get(i), in[i]), "stored values unchanged");
}
static void Empty(const StrokeInputBatch& b) { __vp_assert(b.IsEmpty() && b.Size() == 0, "still empty"); __vp_assert(b.GetToolType() == StrokeInput::ToolType::kUnknown && !b.HasPressure() && !b.HasTilt() && !b.HasOrientation() && !b.HasStrokeUnitLength(), "still without format"); __vp_assert(b.begin() == b.end(), "iterates nothing"); }
VP_ENTRY(s02_append) { StrokeInput in[3]; Format f = AnyFormat(); StrokeInputBatch b = Held(2, f, in), keep; if (__vp_concretize(__vp_range("shared", 0, 1))) keep = b; StrokeInput a = Any(3); if (b.Append(a).ok()) return; Unchanged(b, 2, f, in); if (!keep.IsEmpty()) Unchanged(keep, 2, f, in); __vp_reach("end"); }
VP_ENTRY(s02_append_empty) { StrokeInputBatch b; StrokeInput a = Any(3); if (b.Append(a).ok()) return; Empty(b); __vp_reach("end"); }
VP_ENTRY(s02_append_span_empty) { StrokeInputBatch b; Format f = AnyFormat(); StrokeInput a = Valid(2, f), c = Any(3); std::vector<StrokeInput> v = {a, c}; if (b.Append(absl::MakeConstSpan(v)).ok()) return; Empty(b); __vp_assert(b.Append(a).ok(), "usable after a failure"); Unchanged(b, 1, f, &a); __vp_reach("end"); }
VP_ENTRY(s02_append_span) { StrokeInput in[3]; Format f = AnyFormat(); StrokeInputBatch b = Held(1, f, in), keep; if (__vp_concretize(__vp_range("shared", 0, 1))) keep = b; StrokeInput a = Valid(3, f), c = Any(4); std::vector<StrokeInput> v = {a, c}; if (b.Append(absl::MakeConstSpan(v)).ok()) return; Unchanged(b, 1, f, in); if (!keep.IsEmpty()) Unchanged(keep, 1, f, in); __vp_reach("end"); }
VP_ENTRY(s02_append_batch) { StrokeInput in[3]; Format f = AnyFormat(); StrokeInputBatch b = Held(2, f, in), o; StrokeInput c = Any(4); if (!o.Append(c).ok()) return; if (b.Append(o).ok()) return; Unchanged(b, 2, f, in); __vp_assert(o.Size() == 1 && Same(o.Get(0), c), "argument unchanged"); __vp_reach("end"); }
VP_ENTRY(s02_set) { StrokeInput in[3]; Format f = AnyFormat(); StrokeInputBatch b = Held(3, f, in), keep; bool sh = __vp_concretize(__vp_range("shared", 0, 1)); if (sh) keep = b; StrokeInput a = Any(3); int k = __vp_concretize(__vp_range("k", 0, 2)); if (b.Set(k, a).ok()) return; Unchanged(b, 3, f, in); if (sh) Unchanged(keep, 3, f, in); __vp_reach("end"); }
VP_ENTRY(s02_set_only) { StrokeInput in[3]; Format f = AnyFormat(); StrokeInputBatch b = Held(1, f, in), keep; if (__vp_concretize(__vp_range("shared", 0, 1))) keep = b; StrokeInput a = Any(3); if (b.Set(0, a).ok()) return; Unchanged(b, 1, f, in); __vp_reach("end"); }
VP_ENTRY(s02_create) { Format f = AnyFormat(); StrokeInput a = Valid(2, f), c = Any(3); auto b = StrokeInputBatch::Create({a, c}); if (b.ok()) { StrokeInput two[2] = {a, c}; Unchanged(*b, 2, f, two); } else __vp_assert(b.status().code() == absl::StatusCode::kInvalidArgument, "invalid argument"); __vp_reach("end"); }
