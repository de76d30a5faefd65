#pragma once
#include <variant>

#include "ink_stroke_modeler/types.h"
namespace ink::stroke_model {
struct WobbleSmootherParams { bool is_enabled = true; };
struct PositionModelerParams { struct LoopContractionMitigationParameters { bool is_enabled = false; float speed_lower_bound = -1, speed_upper_bound = -1, interpolation_strength_at_speed_lower_bound = -1, interpolation_strength_at_speed_upper_bound = -1; Duration min_speed_sampling_window{-1}; int min_discrete_speed_samples = -1; }; float spring_mass_constant = 11.f / 32400; float drag_constant = 72.f; LoopContractionMitigationParameters loop_contraction_mitigation_params; };
struct SamplingParams { double min_output_rate = -1; float end_of_stroke_stopping_distance = -1; int end_of_stroke_max_iterations = 20; };
struct StylusStateModelerParams { int max_input_samples = 10; bool use_stroke_normal_projection = false; int min_input_samples = -1; Duration min_sample_duration{-1}; };
struct DisabledPredictorParams {};
struct StrokeModelParams { WobbleSmootherParams wobble_smoother_params; PositionModelerParams position_modeler_params; SamplingParams sampling_params; StylusStateModelerParams stylus_state_modeler_params; std::variant<DisabledPredictorParams> prediction_params; };
}  // namespace ink::stroke_model
