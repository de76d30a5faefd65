// Environment for running brush behaviour nodes on symbolic modelled inputs.
#pragma once
#include <vector>

#include "ink/strokes/internal/brush_tip_modeler_helpers.h"
#include "vp.h"
using namespace ink; using namespace ink::strokes_internal; typedef BrushBehavior BB;
static bool Fin(float x) { return (x - x) == 0; }
static bool Null(float x) { return x != x; }
static bool NF(float x) { return Fin(x) | Null(x); }  // null or finite
struct Env {
  StrokeInputModeler::State st; ModeledStrokeInput in; std::optional<Angle> dir; float size = 1; std::optional<InputMetrics> prev; std::vector<float> stack; float damped[2] = {kNullBehaviorNodeValue, kNullBehaviorNodeValue}; float mods[2] = {0, 0};
  void Run(const BehaviorNodeImplementation& n) { BehaviorNodeContext c{.input_modeler_state = st, .current_input = in, .current_travel_direction = dir, .brush_size = size, .previous_input_metrics = prev, .stack = stack, .damped_values = absl::MakeSpan(damped), .target_modifiers = absl::MakeSpan(mods)}; ProcessBehaviorNode(n, c); }
  float Top() { return stack.back(); }
};
// any finite value, or null
static float Value(const char* null_name, const char* name) { float v = __vp_f32_range(name, -3.4028235e38f, 3.4028235e38f); return __vp_bool(null_name) ? kNullBehaviorNodeValue : v; }
