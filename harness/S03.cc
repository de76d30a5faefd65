// SRC: ink/strokes/input/stroke_input_batch.cc ink/strokes/input/stroke_input.cc ink/strokes/input/internal/stroke_input_validation_helpers.cc ink/geometry/affine_transform.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/types/duration.cc ink/types/physical_distance.cc
// OPT: budget=150
// BOUND: batches of up to 4 inputs with any valid field values in all 8 channel layouts; histories of 3 operations (thorough: 4) out of append, append batch, set, erase, clear, copy, copy back, deep copy over two batches; transforms with any coefficients applied to positions on a grid
// ASSUME: error texts are not modelled
#include <vector>

#include "ink/strokes/input/stroke_input_batch.h"
#include "strokes_ref.h"
using namespace ink; using namespace ref;
static StrokeInputBatch Held(int n, const Format& f, StrokeInput* in) { StrokeInputBatch b; for (int i = 0; i < n; i++) { in[i] = Valid(i, f); if (i) __vp_assume(Pair(in[i - 1], in[i])); bool ok = b.Append(in[i]).ok(); __vp_assume(ok); } return b; }
static void Is(const StrokeInputBatch& b, const std::vector<StrokeInput>& w) {
  __vp_assert(b.Size() == w.size() && b.IsEmpty() == w.empty(), "size"); for (size_t i = 0; i < w.size(); i++) __vp_assert(Same(b.Get(i), w[i]), "stored values");
  if (w.empty()) __vp_assert(b.GetToolType() == StrokeInput::ToolType::kUnknown && !b.HasPressure() && !b.HasTilt() && !b.HasOrientation() && !b.HasStrokeUnitLength() && !b.GetStrokeUnitLength().has_value(), "empty batch has no format");
  else __vp_assert((b.GetToolType() == w[0].tool_type) & (b.HasPressure() == (w[0].pressure != -1)) & (b.HasTilt() == (w[0].tilt.ValueInRadians() != -1)) & (b.HasOrientation() == (w[0].orientation.ValueInRadians() != -1)) & (b.HasStrokeUnitLength() == (w[0].stroke_unit_length.ToCentimeters() != 0)), "format");
}
static void Iterates(const StrokeInputBatch& b, const std::vector<StrokeInput>& w) { size_t i = 0; for (const StrokeInput& s : b) { __vp_assert(i < w.size() && Same(s, w[i]), "iterated value"); i++; } __vp_assert(i == w.size(), "iterates all inputs"); auto it = b.begin(); if (it != b.end()) { auto old = it++; __vp_assert(Same(*old, w[0]), "post-increment returns the old value"); __vp_assert((it == b.end()) == (w.size() == 1), "end reached"); } }
VP_ENTRY(s03_read_back) { StrokeInput in[4]; Format f = AnyFormat(); StrokeInputBatch b = Held(3, f, in); std::vector<StrokeInput> w(in, in + 3); Is(b, w); Iterates(b, w); __vp_assert(b.GetDuration().ToSeconds() == in[2].elapsed_time.ToSeconds() - in[0].elapsed_time.ToSeconds(), "duration"); if (b.HasStrokeUnitLength()) __vp_assert(b.GetStrokeUnitLength()->ToCentimeters() == f.unit, "unit length"); StrokeInputBatch d = b.MakeDeepCopy(); Is(d, w); b.Clear(); Is(d, w); __vp_reach("end"); }
VP_ENTRY(s03_create) { StrokeInput in[3]; Format f = AnyFormat(); for (int i = 0; i < 3; i++) in[i] = Valid(i, f); auto b = StrokeInputBatch::Create({in[0], in[1], in[2]}); if (!b.ok()) return; Is(*b, {in[0], in[1], in[2]}); __vp_reach("end"); }
VP_ENTRY(s03_erase) { StrokeInput in[4]; Format f = AnyFormat(); StrokeInputBatch b = Held(4, f, in), keep; bool sh = __vp_concretize(__vp_range("shared", 0, 1)); if (sh) keep = b; std::vector<StrokeInput> w(in, in + 4); size_t s = __vp_concretize(__vp_range("s", 0, 4)), n = __vp_concretize(__vp_range("n", 0, 6)); size_t count = n == 6 ? SIZE_MAX : n; b.Erase(s, count); std::vector<StrokeInput> r; for (size_t i = 0; i < 4; i++) if (i < s || (n != 6 && i >= s + n)) r.push_back(in[i]); Is(b, r); Iterates(b, r); if (sh) Is(keep, w); __vp_reach("end"); }
VP_ENTRY(s03_erase_past_end) { StrokeInput in[4]; Format f = AnyFormat(); StrokeInputBatch b = Held(2, f, in); __vp_expect_check_fail(); b.Erase(3, 0); __vp_assert(false, "start past the end is detected"); }
VP_ENTRY(s03_get_past_end) { StrokeInput in[4]; Format f = AnyFormat(); StrokeInputBatch b = Held(2, f, in); size_t i = __vp_u64("i"); __vp_assume(i >= 2); __vp_expect_check_fail(); (void)b.Get(i); __vp_assert(false, "index past the end is detected"); }
static void History(int steps) {
  Format f = AnyFormat(); StrokeInput in[6]; StrokeInputBatch a = Held(2, f, in), c; std::vector<StrokeInput> wa(in, in + 2), wc; static const char* no[4] = {"o0", "o1", "o2", "o3"};
  for (int s = 0; s < steps; s++) {
    StrokeInput x = Valid(2 + s, f);
    switch (__vp_concretize(__vp_range(no[s], 0, 8))) {
      case 0: if (a.Append(x).ok()) wa.push_back(x); break;
      case 1: if (!wa.empty() && a.Set(wa.size() - 1, x).ok()) wa.back() = x; break;
      case 2: if (!wa.empty() && a.Set(0, x).ok()) wa[0] = x; break;
      case 3: if (!wa.empty()) { a.Erase(0, 1); wa.erase(wa.begin()); } break;
      case 4: a.Clear(); wa.clear(); break;
      case 5: c = a; wc = wa; break;
      case 6: a = c; wa = wc; break;
      case 7: c = a.MakeDeepCopy(); wc = wa; break;
      default: if (a.Append(c).ok()) wa.insert(wa.end(), wc.begin(), wc.end()); break;
    }
  }
  Is(a, wa); Is(c, wc); __vp_reach("end");
}
VP_ENTRY(s03_history) { History(3); }
VP_ENTRY_T(s03_history4) { History(4); }
VP_ENTRY(s03_self_append) { StrokeInput in[4]; Format f = AnyFormat(); StrokeInputBatch b = Held(2, f, in); bool ok = b.Append(b).ok(); std::vector<StrokeInput> w(in, in + 2); if (ok) { w.push_back(in[0]); w.push_back(in[1]); } Is(b, w); __vp_reach("end"); }
VP_ENTRY(s03_transform) {
  StrokeInput in[4]; Format f = AnyFormat(); StrokeInputBatch b = Held(2, f, in), keep; bool sh = __vp_concretize(__vp_range("shared", 0, 1)); if (sh) keep = b; AffineTransform t(__vp_f32_range("a", -1e9f, 1e9f), __vp_f32_range("b", -1e9f, 1e9f), __vp_f32_range("c", -1e9f, 1e9f), __vp_f32_range("d", -1e9f, 1e9f), __vp_f32_range("e", -1e9f, 1e9f), __vp_f32_range("f", -1e9f, 1e9f));
  std::vector<StrokeInput> w(in, in + 2), old = w; for (auto& x : w) x.position = t.Apply(x.position); b.Transform(t); __vp_assert(b.Size() == 2, "size kept"); for (int i = 0; i < 2; i++) { StrokeInput g = b.Get(i); __vp_assert(__vp_same(g.position.x, w[i].position.x) & __vp_same(g.position.y, w[i].position.y), "positions transformed"); g.position = old[i].position; __vp_assert(Same(g, old[i]), "everything else kept"); } if (sh) Is(keep, old); __vp_reach("end");
}
