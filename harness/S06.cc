// SRC: ink/strokes/internal/stroke_input_modeler.cc ink/brush/brush_family.cc ink/strokes/input/stroke_input_batch.cc ink/strokes/input/stroke_input.cc ink/strokes/input/internal/stroke_input_validation_helpers.cc ink/geometry/affine_transform.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/envelope.cc ink/types/duration.cc ink/types/physical_distance.cc
// OPT: budget=120
// BOUND: strokes of up to 4 real inputs delivered in 1 to 3 updates with 0 to 2 predicted inputs each, both input models, arbitrary numbers of results (0 to 2 per input, some within or at epsilon), any pressure, velocity and current time
// ASSUME: the external ink-stroke-modeler library is replaced by a deterministic stand-in that returns arbitrary results and checks the protocol; its smoothing itself is outside this repository
#include <map>
#include <vector>

#include "ink/strokes/input/stroke_input_batch.h"
#include "ink/strokes/internal/stroke_input_modeler.h"
#include "vp.h"
using namespace ink; using strokes_internal::ModeledStrokeInput; using strokes_internal::StrokeInputModeler;
typedef stroke_model::Input::EventType ET;
static const float kEps = 0.5f;
// ---- stand-in for the stroke modeler: results are an arbitrary function of all events since the reset
struct Event { int id; ET type; bool operator<(const Event& o) const { return id != o.id ? id < o.id : type < o.type; } };
typedef std::vector<Event> Seq;
struct Out { int n; bool small_first; float pressure; };
static bool Less(const Seq& a, const Seq& b) { for (size_t i = 0; i < a.size() && i < b.size(); ++i) { if (a[i] < b[i]) return true; if (b[i] < a[i]) return false; } return a.size() < b.size(); }
struct Entry { Seq key; Out out; };
struct World { bool reset = false, saved = false, up = false; Seq seq, save; std::vector<Entry> known; stroke_model::StrokeModelParams params; int resets = 0; std::vector<stroke_model::Result> all; float x = 0, save_x = 0, small = 0.25f; std::vector<StrokeInput> inputs; };
static World* w;
static Out Results(const Seq& s) {
  for (const Entry& e : w->known) if (!Less(e.key, s) && !Less(s, e.key)) return e.out;
  Out o{1, false, __vp_f32_range("rp", 0, 1)}; const Event& e = s.back();
  if (e.id < 10) { if (e.type == ET::kMove) { int k = __vp_concretize(__vp_range("move", 0, 2)); o.n = k; o.small_first = k == 2; } else if (e.type == ET::kUp) { int k = __vp_concretize(__vp_range("up", 1, 2)); o.n = k == 1 ? 1 : 2; o.small_first = k == 1; } }
  w->known.push_back({s, o}); return o;
}
namespace ink::stroke_model {
absl::Status StrokeModeler::Reset(const StrokeModelParams& p) { w->params = p; w->reset = true; w->saved = false; w->up = false; w->seq.clear(); w->resets++; w->x = 0; return absl::OkStatus(); }
absl::Status StrokeModeler::Update(const Input& i, std::vector<Result>& r) {
  __vp_assert(w->reset, "updates come after a reset"); __vp_assert(!w->up, "no updates after the up event"); __vp_assert((i.event_type == ET::kDown) == w->seq.empty(), "the first event, and no other, is down");
  int id = (int)i.position.x; const StrokeInput& in = w->inputs[id < 10 ? id : id - 6]; __vp_assert((in.position.x == i.position.x) & (in.position.y == i.position.y) & (in.elapsed_time.ToSeconds() == (float)i.time.Value()) & (in.pressure == i.pressure) & (in.tilt.ValueInRadians() == i.tilt) & (in.orientation.ValueInRadians() == i.orientation), "inputs are passed on unchanged");
  w->seq.push_back({id, i.event_type}); w->up = i.event_type == ET::kUp; Out o = Results(w->seq);
  for (int k = 0; k < o.n; ++k) { bool small = o.small_first && k == 0; Result x; w->x += small ? w->small : 1; x.position = {w->x, 0}; x.velocity = {o.pressure, 2}; x.acceleration = {3, o.pressure}; x.time = i.time; x.pressure = o.pressure; x.tilt = i.tilt; x.orientation = i.orientation; r.push_back(x); }
  return absl::OkStatus();
}
void StrokeModeler::Save() { __vp_assert(w->reset & !w->up, "saved between events"); w->saved = true; w->save = w->seq; w->save_x = w->x; }
void StrokeModeler::Restore() { __vp_assert(w->saved, "restored after a save"); w->seq = w->save; w->up = false; w->x = w->save_x; }
}  // namespace ink::stroke_model
// ---- driver
static StrokeInput In(int i, bool predicted) { StrokeInput s; s.tool_type = StrokeInput::ToolType::kTouch; s.position = {(float)(predicted ? 10 + i : i), (float)(i + 5)}; s.elapsed_time = Duration32::Seconds(predicted ? 20 + i : i); s.stroke_unit_length = PhysicalDistance::Centimeters(2); s.pressure = 0.25f; s.tilt = Angle::Radians(0.5f); s.orientation = Angle::Radians(0.125f * i); return s; }
static StrokeInputBatch Batch(int first, int n, bool predicted) { StrokeInputBatch b; for (int i = 0; i < n; ++i) { bool ok = b.Append(In(first + i, predicted)).ok(); __vp_assert(ok, "valid input"); } return b; }
static void Setup() { w = new World; if (__vp_concretize(__vp_range("exact", 0, 1))) w->small = kEps; for (int i = 0; i < 4; ++i) w->inputs.push_back(In(i, false)); for (int i = 0; i < 4; ++i) w->inputs.push_back(In(i, true)); }
static bool Same(const ModeledStrokeInput& a, const ModeledStrokeInput& b) { return (a.position == b.position) & (a.velocity == b.velocity) & (a.acceleration == b.acceleration) & (a.traveled_distance == b.traveled_distance) & (a.elapsed_time.ToSeconds() == b.elapsed_time.ToSeconds()) & (a.pressure == b.pressure) & (a.tilt.ValueInRadians() == b.tilt.ValueInRadians()) & (a.orientation.ValueInRadians() == b.orientation.ValueInRadians()); }
static std::vector<ModeledStrokeInput> Expect(const Seq& s) { // the modelled inputs that the events since the reset stand for
  std::vector<ModeledStrokeInput> r; float x = 0; Seq k; for (const Event& e : s) { k.push_back(e); Out o = Results(k); const StrokeInput& in = w->inputs[e.id < 10 ? e.id : e.id - 6]; for (int j = 0; j < o.n; ++j) { bool small = o.small_first && j == 0; x += small ? w->small : 1; float d = r.empty() ? kEps : x - r.back().position.x; if (d < kEps) continue; ModeledStrokeInput m; m.position = {x, 0}; m.velocity = {o.pressure, 2}; m.acceleration = {3, o.pressure}; m.traveled_distance = r.empty() ? 0 : r.back().traveled_distance + d; m.elapsed_time = in.elapsed_time; m.pressure = o.pressure; m.tilt = in.tilt; m.orientation = in.orientation; r.push_back(m); } } return r;
}
struct Driver {
  StrokeInputModeler m; int real = 0; std::vector<ModeledStrokeInput> stable; size_t modeled_from_prediction_only = 0;
  explicit Driver(const BrushFamily::InputModel& model) { m.StartStroke(model, kEps); }
  void Extend(int n, int p) {
    float now = __vp_f32_range("now", 0, 1e6f); StrokeInputBatch r = Batch(real, n, false), q = Batch(0, p, true); m.ExtendStroke(r, q, Duration32::Seconds(now)); real += n; const StrokeInputModeler::State& s = m.GetState(); auto in = m.GetModeledInputs();
    // the events that must have been modelled: settled inputs, then the last real one and the predictions
    Seq settled; for (int i = 0; i + 1 < real; ++i) settled.push_back({i, i ? ET::kMove : ET::kDown}); Seq full = settled; int rest = (real > 0) + p; for (int i = 0; i < rest; ++i) { bool is_real = real > 0 && i == 0; int id = is_real ? real - 1 : 10 + i - (real > 0); full.push_back({id, full.empty() ? ET::kDown : i + 1 == rest ? ET::kUp : ET::kMove}); }
    if (real + p > 0) { __vp_assert(w->seq.size() == settled.size() && !Less(w->seq, settled) && !Less(settled, w->seq), "only settled real inputs remain in the modeler"); }
    std::vector<ModeledStrokeInput> a = Expect(settled), b = Expect(full); Seq upto = settled; if (real > 0) upto.push_back(full[settled.size()]); size_t reals = Expect(upto).size();
    __vp_assert(s.stable_input_count == a.size(), "the stable count is that of the settled real inputs"); __vp_assert(s.real_input_count == reals, "the real count is that of all real inputs"); __vp_assert(in.size() == b.size(), "modelled inputs are the results at least epsilon apart"); if (in.size() != b.size() || s.stable_input_count > in.size()) return;
    for (size_t i = 0; i < in.size(); ++i) __vp_assert(Same(in[i], b[i]), "modelled inputs reflect their results"); for (size_t i = 0; i < stable.size(); ++i) __vp_assert(i < s.stable_input_count && Same(in[i], stable[i]), "stable inputs never change"); stable.assign(in.begin(), in.begin() + s.stable_input_count);
    for (size_t i = 1; i < in.size(); ++i) __vp_assert(in[i].traveled_distance >= in[i - 1].traveled_distance + kEps, "distance grows by at least epsilon");
    float last_t = in.empty() ? 0 : in.back().elapsed_time.ToSeconds(); __vp_assert(s.complete_elapsed_time.ToSeconds() == (last_t > now ? last_t : now), "complete elapsed time"); __vp_assert(s.complete_traveled_distance == (in.empty() ? 0 : in.back().traveled_distance), "complete traveled distance"); __vp_assert(s.total_real_distance == (reals ? in[reals - 1].traveled_distance : 0), "real traveled distance"); __vp_assert(s.total_real_elapsed_time.ToSeconds() == (reals ? in[reals - 1].elapsed_time.ToSeconds() : 0), "real elapsed time");
    if (real + p > 0) { __vp_assert(s.tool_type == StrokeInput::ToolType::kTouch, "tool type"); __vp_assert(s.stroke_unit_length.has_value() && s.stroke_unit_length->ToCentimeters() == 2, "stroke unit length"); } else __vp_assert((s.tool_type == StrokeInput::ToolType::kUnknown) & !s.stroke_unit_length.has_value(), "no inputs, no tool type");
  }
};
static BrushFamily::InputModel Model(int k) { if (k) return BrushFamily::SpringModelV2{}; return BrushFamily::SpringModelV1{}; }
static void Histories(int r0, int rmax) { Setup(); Driver d(Model(0)); d.Extend(r0, __vp_concretize(__vp_range("p0", 0, 2))); int r1 = __vp_concretize(__vp_range("r1", 0, rmax)); d.Extend(r1, __vp_concretize(__vp_range("p1", 0, 1))); d.Extend(3 - r0 - r1 > 0 ? 3 - r0 - r1 : 0, __vp_concretize(__vp_range("p2", 0, 1))); __vp_reach("end"); }
VP_ENTRY(s06_from_nothing) { Histories(0, 3); }
VP_ENTRY(s06_from_one) { Histories(1, 2); }
VP_ENTRY(s06_from_two) { Histories(2, 1); }
VP_ENTRY(s06_from_three) { Setup(); Driver d(Model(1)); d.Extend(3, __vp_concretize(__vp_range("p0", 0, 2))); d.Extend(__vp_concretize(__vp_range("r1", 0, 1)), __vp_concretize(__vp_range("p1", 0, 1))); __vp_reach("end"); }
VP_ENTRY(s06_restart) { // a new stroke starts from scratch
  Setup(); StrokeInputModeler m; m.StartStroke(Model(0), kEps); m.ExtendStroke(Batch(0, __vp_concretize(__vp_range("n", 0, 2)), false), Batch(0, __vp_concretize(__vp_range("p", 0, 1)), true), Duration32::Seconds(1)); m.StartStroke(Model(__vp_concretize(__vp_range("model", 0, 1))), kEps); const auto& s = m.GetState(); __vp_assert(m.GetModeledInputs().empty() && s.stable_input_count == 0 && s.real_input_count == 0 && s.tool_type == StrokeInput::ToolType::kUnknown && !s.stroke_unit_length.has_value(), "empty after the start"); __vp_assert((s.complete_elapsed_time.ToSeconds() == 0) & (s.complete_traveled_distance == 0) & (s.total_real_distance == 0) & (s.total_real_elapsed_time.ToSeconds() == 0), "no distance or time after the start"); w->seq.clear(); int resets = w->resets; m.ExtendStroke(Batch(0, 2, false), StrokeInputBatch(), Duration32::Seconds(1)); __vp_assert(w->resets == resets + 1, "the modeler is reset for the new stroke"); __vp_assert(m.GetState().stable_input_count == 1, "first input of the new stroke is stable"); __vp_reach("end"); }
VP_ENTRY(s06_params) { // what the external modeler is configured with
  Setup(); int k = __vp_concretize(__vp_range("model", 0, 1)); bool unit = __vp_concretize(__vp_range("unit", 0, 1)); StrokeInputModeler m; m.StartStroke(Model(k), kEps); StrokeInputBatch b; for (int i = 0; i < 2; ++i) { StrokeInput s = In(i, false); if (!unit) s.stroke_unit_length = StrokeInput::kNoStrokeUnitLength; bool ok = b.Append(s).ok(); __vp_assert(ok, "valid"); } m.ExtendStroke(b, StrokeInputBatch(), Duration32::Zero()); const auto& p = w->params; const auto& l = p.position_modeler_params.loop_contraction_mitigation_params; __vp_assert(!p.wobble_smoother_params.is_enabled, "no wobble smoothing"); __vp_assert(p.sampling_params.end_of_stroke_stopping_distance == kEps, "stops within epsilon"); __vp_assert(p.sampling_params.min_output_rate == 180, "output rate"); __vp_assert(l.is_enabled == (k == 1 && unit), "loop mitigation only for spring model v2 with physical units"); if (l.is_enabled) __vp_assert((l.speed_lower_bound == 0) & (l.speed_upper_bound == 12.5f), "speeds converted to stroke units"); __vp_assert(p.stylus_state_modeler_params.use_stroke_normal_projection == (k == 1), "projection follows the model"); __vp_reach("end"); }
VP_ENTRY(s06_not_started) { Setup(); StrokeInputModeler m; __vp_expect_check_fail(); m.ExtendStroke(Batch(0, 1, false), StrokeInputBatch(), Duration32::Zero()); __vp_assert(false, "extending before starting is detected"); }
VP_ENTRY(s06_bad_epsilon) { Setup(); StrokeInputModeler m; float e = __vp_f32("eps"); __vp_assume(!(e > 0)); __vp_expect_check_fail(); m.StartStroke(Model(0), e); __vp_assert(false, "epsilon must be positive"); }
