H='ink/strokes/internal/brush_tip_modeler_helpers.cc'
DC='ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc'
B=[
('lerp-pressure','K04',H,'geometry_internal::Lerp(a.pressure, b.pressure, t)','a.pressure'),
('lerp-orient-a','K04',H,'''a.orientation == StrokeInput::kNoOrientation ||
                                 b.orientation == StrokeInput::kNoOrientation''','''a.orientation == StrokeInput::kNoOrientation'''),
('lerp-time','K04',H,'a.elapsed_time.ToMillis(), b.elapsed_time.ToMillis(), t','a.elapsed_time.ToMillis(), b.elapsed_time.ToMillis(), t * t'),
('lerp-accel','K04',H,'geometry_internal::Lerp(a.acceleration, b.acceleration, t)','geometry_internal::Lerp(a.acceleration, b.velocity, t)'),
('cts-luminosity','K01',H,'std::clamp(modifiers.luminosity, -1.f, 1.f)','std::clamp(modifiers.luminosity, 0.f, 1.f)'),
('cts-opacity','K01',H,'''        tip_state.opacity_multiplier * modifiers.opacity_multiplier, 0.f, 2.f);''','''        modifiers.opacity_multiplier, 0.f, 2.f);'''),
('cts-slant','K01',H,'''                                 -kQuarterTurn, kQuarterTurn);''','''                                 -kQuarterTurn, 2 * kQuarterTurn);'''),
('cts-pinch','K01',H,'std::clamp(tip_state.pinch + modifiers.pinch_offset, 0.f, 1.f)','std::clamp(modifiers.pinch_offset, 0.f, 1.f)'),
('cts-rot-norm','K01',H,'''        ClampToFinite(tip_state.rotation + modifiers.rotation_offset)
            .Normalized();''','''        ClampToFinite(tip_state.rotation + modifiers.rotation_offset);'''),
('cts-lateral','K01',H,'*travel_direction + kQuarterTurn','*travel_direction - kQuarterTurn'),
('cts-forward-none','K01',H,'''      if (travel_direction.has_value()) {
        tip_state_modifiers.position_offset_in_stroke_units +=
            Vec::FromDirectionAndMagnitude(*travel_direction,
                                           modifier * brush_size);
      }''','''      tip_state_modifiers.position_offset_in_stroke_units +=
          Vec::FromDirectionAndMagnitude(travel_direction.value_or(Angle()),
                                         modifier * brush_size);'''),
('cts-size-h','K01',H,'''          ClampToFinite(tip_state_modifiers.width_multiplier * modifier);
      tip_state_modifiers.height_multiplier =
          ClampToFinite(tip_state_modifiers.height_multiplier * modifier);''','''          ClampToFinite(tip_state_modifiers.width_multiplier * modifier);
      tip_state_modifiers.height_multiplier =
          ClampToFinite(tip_state_modifiers.width_multiplier * modifier);'''),
('cts-hue','K01',H,'modifiers.hue_offset.Normalized() / kFullTurn','modifiers.hue_offset / kFullTurn'),
('cts-sat-add','K01',H,'ClampToFinite(tip_state_modifiers.saturation_multiplier * modifier)','ClampToFinite(modifier)'),
('dampcm','K02',H,'PhysicalDistance::Centimeters(node.damping_gap)','PhysicalDistance::Millimeters(node.damping_gap)'),
('damp-size','K02',H,'float damping_distance = context.brush_size * node.damping_gap;','float damping_distance = node.damping_gap;'),
('damp-snap','K02',H,'''    damped_value = kNullBehaviorNodeValue;
  }
  context.stack.back() = damped_value;''','''    context.stack.back() = kNullBehaviorNodeValue; return;
  }
  context.stack.back() = damped_value;'''),
('interp-order','K02',H,'*result = Lerp(range_start, range_end, param);','*result = Lerp(range_end, range_start, param);'),
('inverse-eq','K02',H,'''      if (range_start == range_end) {
        *result = kNullBehaviorNodeValue;
        return;
      }
''',''),
('target-reset','K02',H,'  if (IsNullBehaviorNodeValue(input)) return;\n  float modifier','  if (IsNullBehaviorNodeValue(input)) input = 0;\n  float modifier'),
('lat-accel-cm','K02',H,'''                             input.velocity.AsUnitVec().Orthogonal()) *
             input_modeler_state''','''                             input.velocity.AsUnitVec()) *
             input_modeler_state'''),
('pred-cm','K02',H,'''      return GetPredictedDistanceTraveledInStrokeUnits(input_modeler_state,
                                                       input) *
             input_modeler_state.stroke_unit_length->ToCentimeters();''','''      return input.traveled_distance *
             input_modeler_state.stroke_unit_length->ToCentimeters();'''),
('dir-norm','K02',H,'return travel_direction->Normalized().ValueInRadians();','return travel_direction->ValueInRadians();'),
]
