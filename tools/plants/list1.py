SI='ink/strokes/input/stroke_input_batch.cc'; PM='ink/geometry/partitioned_mesh.cc'; MM='ink/geometry/mutable_mesh.cc'; MP='ink/geometry/internal/mesh_packing.cc'
H='ink/strokes/internal/brush_tip_modeler_helpers.cc'; IP='ink/strokes/in_progress_stroke.cc'; IM='ink/strokes/internal/stroke_input_modeler.cc'; TM='ink/strokes/internal/brush_tip_modeler.cc'
BP='ink/brush/brush_paint.cc'; BR='ink/brush/brush.cc'; EI='ink/strokes/internal/easing_implementation.cc'; EF='ink/brush/easing_function.cc'; CC='ink/color/color.cc'
B=[
('set-next-neighbour','S01',SI,'if (i + 1 < Size()) {','if (i + 2 < Size()) {'),
('append-batch-last','S01',SI,'ValidateConsecutiveInputs(Get(Size() - 1), inputs.Get(0));','ValidateConsecutiveInputs(Get(0), inputs.Get(0));'),
('append-span-first','S01',SI,'''    if (status = ValidateConsecutiveInputs(Get(Size() - 1), inputs.front());''','''    if (status = ValidateConsecutiveInputs(Get(Size() - 1), inputs.back());'''),
('seq-skip-last','S01',SI,'for (size_t i = 1; i < inputs.size(); ++i) {','for (size_t i = 1; i + 1 < inputs.size(); ++i) {'),
('tilt-range','S01',SI,'input.tilt <= kQuarterTurn','input.tilt < kHalfTurn'),
('nan-pressure','S01',SI,'''  if (!std::isfinite(input.pressure) ||
      (input.HasPressure() && !(input.pressure >= 0 && input.pressure <= 1))) {''','''  if (input.HasPressure() && (input.pressure < 0 || input.pressure > 1)) {'''),
('set-clear-early','S02',SI,'''  if (Size() == 1) {
    Clear();
    if (!data_.HasValue()) data_.Emplace();
    SetInlineFormatMetadata(input);
    AppendInputToFloatVector(input, data_.MutableValue());
    size_ = 1;
    return absl::OkStatus();
  }
''','''  if (Size() == 1) {
    Clear();
    return Append(input);
  }
  absl::MakeSpan(data_.MutableValue())[i * FloatsPerInput()] = input.position.x;
'''),
('append-meta-early','S02',SI,'''absl::Status StrokeInputBatch::Append(const StrokeInput& input) {
''','''absl::Status StrokeInputBatch::Append(const StrokeInput& input) {
  if (IsEmpty()) tool_type_ = input.tool_type;
'''),
('erase-tail','S03',SI,'''data.begin() + (start + count) * stride);
  size_ -= count;''','''data.begin() + (start + count) * stride);
  size_ = std::min(size_ - count, start + 1);'''),
('erase-all-keeps-meta','S03',SI,'''  if (start == 0 && count == Size()) {
    Clear();
    return;
  }
''',''''''),
('clear-keeps-orientation','S03',SI,'''  has_tilt_ = false;
  has_orientation_ = false;
}''','''  has_tilt_ = false;
}'''),
('transform-shared','S03',SI,'auto data = absl::MakeSpan(data_.MutableValue());\n  int stride','auto data = absl::MakeSpan(const_cast<std::vector<float>&>(data_.Value()));\n  int stride'),
('duration-first','S03',SI,'return Get(Size() - 1).elapsed_time - Get(0).elapsed_time;','return Get(Size() - 1).elapsed_time;'),
('pm-format-first','M08',PM,'for (size_t i = 1; i < group.meshes.size(); ++i) {','for (size_t i = 2; i < group.meshes.size(); ++i) {'),
('pm-total-index','M08',PM,'if (group.outlines[o_idx][v_idx].mesh_index >= group.meshes.size()) {','if (group.outlines[o_idx][v_idx].mesh_index >= total_meshes) {'),
('pm-first-outline','M08',PM,'uint32_t group_first_outline_index = data->outlines_.size();','uint32_t group_first_outline_index = data->group_first_outline_indices_.empty() ? 0 : data->group_first_outline_indices_.back() + group.outlines.size();'),
('pm-bounds-last','M08',PM,'for (size_t i = 0; i < data_->Meshes().size(); ++i) {','for (size_t i = 0; i < RenderGroupMeshes(0).size(); ++i) {'),
('pm-coverage-ge','M09',PM,'  return covered_area > area_threshold;\n}','  return covered_area >= area_threshold;\n}'),
('pm-signed-area','M09',PM,'''        covered_area += std::abs(target.Meshes()[index.mesh_index]
                                     .GetTriangle(index.triangle_index)
                                     .SignedArea());
        return PartitionedMesh::FlowControl::kContinue;''','''        covered_area += target.Meshes()[index.mesh_index]
                                     .GetTriangle(index.triangle_index)
                                     .SignedArea();
        return PartitionedMesh::FlowControl::kContinue;'''),
('pm-total-first-mesh','M09',PM,'''    for (const Mesh& mesh : meshes_) {
      for (uint32_t i = 0; i < mesh.TriangleCount(); ++i) {
        total_abs''','''    for (const Mesh& mesh : meshes_) {
      for (uint32_t i = 0; i < meshes_[0].TriangleCount() && i < mesh.TriangleCount(); ++i) {
        total_abs'''),
('pm-query-bounds','M09',PM,'''  Rect query_bounds =
      *Envelope(query_to_target.Apply(*query.Bounds().AsRect())).AsRect();''','''  Rect query_bounds = Rect::FromTwoPoints(
      query_to_target.Apply(query.Bounds().AsRect()->Corners()[0]),
      query_to_target.Apply(query.Bounds().AsRect()->Corners()[2]));'''),
('pm-wrapper-continue','M09',PM,'''    if (found_intersection) {
      return visitor(index) == PartitionedMesh::FlowControl::kContinue;
    }
    return true;
  };''','''    if (found_intersection) visitor(index);
    return true;
  };'''),
('tilt-zero-y','K02',H,'''std::optional<float> GetTiltY(Angle tilt, Angle orientation) {
  if (tilt == Angle()) return 0;''','''std::optional<float> GetTiltY(Angle tilt, Angle orientation) {
  if (tilt == Angle() || orientation == Angle()) return 0;
  if (orientation == kHalfTurn) return 0;'''),
('tilt-quarter','K02',H,'''  if (tilt == kQuarterTurn) return std::nullopt;
  return Atan(Cos(orientation)''','''  return Atan(Cos(orientation)'''),
('orient-needs-tilt','K02',H,'''      if (input.orientation == StrokeInput::kNoOrientation ||
          input.tilt == Angle())
        break;
      return input.orientation.ValueInRadians();''','''      if (input.orientation == StrokeInput::kNoOrientation) break;
      return input.orientation.ValueInRadians();'''),
('pred-dist-neg','K02',H,'''  return std::max(
      0.f, input.traveled_distance - input_modeler_state.total_real_distance);''','''  return input.traveled_distance - input_modeler_state.total_real_distance;'''),
('dist-remaining','K02',H,'''      return (input_modeler_state.complete_traveled_distance -
              input.traveled_distance) /
             brush_size;''','''      return (input_modeler_state.total_real_distance -
              input.traveled_distance) /
             brush_size;'''),
('accel-lat-sign','K02',H,'''                             input.velocity.AsUnitVec().Orthogonal()) /
             brush_size;''','''                             input.velocity.Orthogonal().AsUnitVec() * -1) /
             brush_size;'''),
('fallback-tiltxy','K02',H,'''      return input.tilt != StrokeInput::kNoTilt &&
             input.orientation != StrokeInput::kNoOrientation;
  }''','''      return input.tilt != StrokeInput::kNoTilt ||
             input.orientation != StrokeInput::kNoOrientation;
  }'''),
('mirror-floor','K02',H,'std::abs(x - 2 * std::round(0.5f * x))','std::abs(x - 2 * std::floor(0.5f * x))'),
('damp-null','K02',H,'''    // Input is null, so use previous damped value unchanged.
''','''    damped_value = input;
'''),
('damp-nounits','K02',H,'''        if (!context.input_modeler_state.stroke_unit_length.has_value()) {
          damped_value = input;
          break;
        }
        PhysicalDistance damping''','''        if (!context.input_modeler_state.stroke_unit_length.has_value()) {
          break;
        }
        PhysicalDistance damping'''),
('damp-delta','K02',H,'if (delta <= 0) return previous_offset;','if (delta <= 0) return target_offset;'),
('enqueue-pred-kept','S04',IP,'  queued_predicted_inputs_ = predicted_inputs;\n','  if (!predicted_inputs.IsEmpty()) queued_predicted_inputs_ = predicted_inputs;\n'),
('update-time-equal','S04',IP,'if (current_elapsed_time < current_elapsed_time_) {','if (current_elapsed_time <= current_elapsed_time_ && current_elapsed_time_ > Duration32::Zero()) {'),
('update-erase-late','S04',IP,'  real_input_count_ += queued_real_inputs_.Size();\n','  real_input_count_ = processed_inputs_.Size() - queued_predicted_inputs_.Size() * 0 + (queued_real_inputs_.IsEmpty() ? 0 : 0);\n  if (real_input_count_ > 3) real_input_count_ = 3;\n'),
('region-replaced','S04',IP,'    updated_region_.Add(update.region);\n','    if (i > 0) updated_region_.Add(update.region); else updated_region_ = update.region;\n'),
('validate-queued','S04',IP,'''        queued_real_inputs_.IsEmpty()
            ? processed_inputs_.Get(real_input_count_ - 1)''','''        real_input_count_ != 0
            ? processed_inputs_.Get(real_input_count_ - 1)'''),
('needs-update-first','S04',IP,'''    if (shape_builders_[coat_index].HasUnfinishedTimeBehaviors()) {
      return true;
    }
  }
  return false;''','''    return shape_builders_[coat_index].HasUnfinishedTimeBehaviors();
  }
  return false;'''),
('copy-omit','S04',IP,'''        .omit_attributes = omit_attributes[coat_index],''','''        .omit_attributes = omit_attributes[0],'''),
('copy-shallow','S04',IP,'''    return Stroke(*brush, processed_inputs_.MakeDeepCopy(), *partitioned_mesh);''','''    StrokeInputBatch real = processed_inputs_;
    real.Erase(real_input_count_);
    return Stroke(*brush, real, *partitioned_mesh);'''),
('im-epsilon-le','S06',IM,'if (delta < brush_epsilon_) continue;','if (delta <= brush_epsilon_) continue;'),
('im-distance-skip','S06',IM,'''      if (delta < brush_epsilon_) continue;

      traveled_distance += delta;''','''      traveled_distance += delta;
      if (delta < brush_epsilon_) continue;
'''),
('im-stable-late','S06',IM,'''  if (last_real_stroke_input_.has_value() && !real_inputs.IsEmpty()) {
    ModelInput(*last_real''','''  if (last_real_stroke_input_.has_value() &&
      !(real_inputs.IsEmpty() && predicted_inputs.IsEmpty())) {
    ModelInput(*last_real'''),
('im-up-early','S06',IM,'''    ModelInput(*last_real_stroke_input_,
               /* last_input_in_update = */ predicted_inputs.IsEmpty());
  } else if''','''    ModelInput(*last_real_stroke_input_,
               /* last_input_in_update = */ true);
  } else if'''),
('im-restore-flag','S06',IM,'''  stroke_modeler_has_input_ = stroke_modeler_save_has_input;
}''','''  stroke_modeler_has_input_ |= stroke_modeler_save_has_input;
}'''),
('im-early-return','S06',IM,'''  if (real_inputs.IsEmpty() && predicted_inputs.IsEmpty() &&
      state_.real_input_count == modeled_inputs_.size()) {''','''  if (real_inputs.IsEmpty() && predicted_inputs.IsEmpty()) {'''),
('im-start-real-dist','S06',IM,'''  state_.total_real_distance = 0;
  state_.total_real_elapsed_time = Duration32::Zero();
  modeled''','''  state_.total_real_elapsed_time = Duration32::Zero();
  modeled'''),
('im-complete-time','S06',IM,'''      std::max(last_input.elapsed_time, current_elapsed_time);''','''      std::max(state_.complete_elapsed_time, current_elapsed_time);'''),
('tm-dist-bound','K04',TM,'return std::max(node.source_value_range[0], node.source_value_range[1]);','return node.source_value_range[1];'),
('tm-millis','K04',TM,'return Duration32::Millis(SourceValueUpperBound(node));','return Duration32::Seconds(SourceValueUpperBound(node) * 1e-6f);'),
('tm-reserve','K04',TM,'''    case BrushBehavior::Source::kNormalizedDirectionY:
      return true;''','''      return true;
    case BrushBehavior::Source::kNormalizedDirectionY:'''),
('tm-damp-save','K04',TM,'''  absl::c_copy(current_damped_values_, fixed_damped_values_.begin());
''','''  if (new_fixed_tip_state_count_ > 0) absl::c_copy(current_damped_values_, fixed_damped_values_.begin());
  if (new_fixed_tip_state_count_ > 1) fixed_damped_values_ = current_damped_values_;
  else if (input_index_for_next_fixed_state_ > 3) absl::c_fill(fixed_damped_values_, kNullBehaviorNodeValue);
'''),
('tm-unstable-max','K04',TM,'inputs[input_modeler_state.stable_input_count - 1];','inputs[input_modeler_state.real_input_count - 1];'),
('tm-break-or','K04',TM,'if (current_input.traveled_distance > max_fixed_metrics.traveled_distance ||','if (current_input.traveled_distance > max_fixed_metrics.traveled_distance &&'),
('tm-start-metrics','K04',TM,'  last_fixed_modeled_tip_state_metrics_.reset();\n',''),
('ease-step-none','B02',EI,'''      steps_implementation.step_height =
          1 / (steps_implementation.step_count - 1);
      steps_implementation.starting_y = 0;''','''      steps_implementation.step_height =
          1 / steps_implementation.step_count;
      steps_implementation.starting_y = 0;'''),
('ease-linear-first','B02',EI,'if (i > 0 && linear.points[i].x == 0) {','if (i > 1 && linear.points[i].x == 0) {'),
('ease-nan','B02',EI,'  if (std::isnan(x)) return x;\n  if (x <= 0) return lookup_table.front();','  if (x <= 0) return lookup_table.front();'),
('ease-inout','B02',EI,'return {.x1 = 0.42, .y1 = 0, .x2 = 0.58, .y2 = 1};','return {.x1 = 0.42, .y1 = 0, .x2 = 0.85, .y2 = 1};'),
('easing-valid-y','B01',EF,'''  if (!(std::isfinite(params.x1) && std::isfinite(params.y1) &&
        std::isfinite(params.x2) && std::isfinite(params.y2)) ||''','''  if (!(std::isfinite(params.x1) && std::isfinite(params.y1) &&
        std::isfinite(params.x2)) || std::isnan(params.y2) ||'''),
('paint-jitter','B05',BP,'layer.size_jitter.y >= 0.0f && layer.size_jitter.y <= layer.size.y','layer.size_jitter.y >= 0.0f && layer.size_jitter.y <= layer.size.x'),
('paint-mapping-adj','B05',BP,'      if (layer.mapping != first_mapping) {','      if (layer.mapping != first_mapping && &layer != &paint.texture_layers.back()) {'),
('paint-kf-nan','B05',BP,'if (!(*keyframe.opacity >= 0.0f && *keyframe.opacity <= 1.0f)) {','if (*keyframe.opacity < 0.0f || *keyframe.opacity > 1.0f) {'),
('brush-eps-late','B06',BR,'''  if (status = ValidateBrushSizeRelativeToEpsilon(size_, epsilon);
      !status.ok()) {
    return status;
  }
  epsilon_ = epsilon;''','''  epsilon_ = epsilon;
  if (status = ValidateBrushSizeRelativeToEpsilon(size_, epsilon);
      !status.ok()) {
    return status;
  }'''),
('color-alpha-inf','C01',CC,'  alpha = std::clamp(NanToZero(alpha), 0.0f, 1.0f);','  alpha = std::isinf(alpha) ? 1.0f : std::clamp(NanToZero(alpha), 0.0f, 1.0f);'),
('color-premul-gamut','C01',CC,'''    if (rgba.a == 0.0f) {
      // This''','''    if (rgba.a < 0.0f) {
      // This'''),
('color-scale','C03',CC,'''  } else if (max_val > 1.0f) {''','''  } else if (max_val > 1.0f + kNearlyZero) {'''),
('color-rgba','C02',CC,'static_cast<uint8_t>(rgba & 0xff), format, color_space);','static_cast<uint8_t>(rgba | 0), Format::kGammaEncoded, color_space);'),
]
