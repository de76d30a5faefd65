MM='ink/geometry/mutable_mesh.cc'; SO='ink/strokes/internal/stroke_outline.cc'; SOH='ink/strokes/internal/stroke_outline.h'; BR='ink/brush/brush.cc'; IP='ink/strokes/in_progress_stroke.cc'; ST='ink/strokes/stroke.cc'; SB='ink/strokes/internal/stroke_shape_builder.cc'; CW='ink/types/internal/copy_on_write.h'; IR='ink/types/iterator_range.h'
B=[
('mm-clone-count','M06',MM,'  cloned_mesh.index_data_ = index_data_;\n',''),
('mm-from-idx','M06',MM,'3 * Mesh::kBytesPerIndex * mesh.TriangleCount());','3 * Mesh::kBytesPerIndex * (mesh.TriangleCount() & ~64u));'),
('mm-set4','M06',MM,'std::memcpy(dst, src, 4 * sizeof(float));','std::memcpy(dst, src, 3 * sizeof(float));'),
('mm-set3p2','M06',MM,'''    case MeshFormat::AttributeType::kFloat3PackedIn2Floats:
    case MeshFormat::AttributeType::kFloat3PackedIn4UnsignedBytes_XYZ10:
      std::memcpy(dst, src, 3 * sizeof(float));
      break;''','''    case MeshFormat::AttributeType::kFloat3PackedIn2Floats:
      std::memcpy(dst, src, 3 * sizeof(float));
      break;
    case MeshFormat::AttributeType::kFloat3PackedIn4UnsignedBytes_XYZ10:
      std::memcpy(dst, src, 2 * sizeof(float));
      break;'''),
('mm-valid-last','M06',MM,'indices[2] >= n_vertices)','indices[2] > n_vertices)'),
('so-grow','E01',SO,'''      2 * std::max(current_counts.left + new_index_counts.left,
                   current_counts.right + new_index_counts.right);''','''      2 * (std::max(current_counts.left, current_counts.right) +
           std::max(new_index_counts.left, new_index_counts.right) - 1);'''),
('so-rend','E01',SO,'index_storage_.UnusedLeftCapacity() < new_left_indices.size() ||','index_storage_.UnusedLeftCapacity() + 1 < new_left_indices.size() ||'),
('br-size-rel','B06',BR,'''ValidateBrushSizeRelativeToEpsilon(size, epsilon_);
      !status.ok()) {
    return status;
  }
  size_ = size;''','''ValidateBrushSizeRelativeToEpsilon(size, epsilon_);
      !status.ok() && size < 0.5f * size_) {
    return status;
  }
  size_ = size;'''),
('br-eps-early','B06',BR,'''  absl::Status status = ValidateBrushEpsilon(epsilon);
  if (!status.ok()) {
    return status;
  }
  if (status = ValidateBrushSizeRelativeToEpsilon(size_, epsilon);''','''  absl::Status status = ValidateBrushEpsilon(epsilon);
  if (!status.ok()) {
    return status;
  }
  epsilon_ = epsilon;
  if (status = ValidateBrushSizeRelativeToEpsilon(size_, epsilon);'''),
('ip-real','S04',IP,'real_input_count_ += queued_real_inputs_.Size();','real_input_count_ = processed_inputs_.Size();'),
('ip-region','S04',IP,'  updated_region_.Reset();\n',''),
('ip-region5','E05',IP,'  updated_region_.Reset();\n',''),
('ip-region-add','E05',IP,'    updated_region_.Add(update.region);','    if (i == 0 || !queued_real_inputs_.IsEmpty()) updated_region_.Add(update.region);'),
('ip-erase','S04',IP,'  queued_real_inputs_.Clear();\n  queued_predicted_inputs_.Clear();\n  return absl::OkStatus();','  queued_real_inputs_.Clear();\n  return absl::OkStatus();'),
('ip-need','S04',IP,'if (!queued_real_inputs_.IsEmpty() || !queued_predicted_inputs_.IsEmpty()) {','if (!queued_real_inputs_.IsEmpty()) {'),
('ip-need-coat','E05',IP,'''    if (shape_builders_[coat_index].HasUnfinishedTimeBehaviors()) {
      return true;
    }''','''    return shape_builders_[coat_index].HasUnfinishedTimeBehaviors();'''),
('ip-val-last','S04',IP,'            ? processed_inputs_.Get(real_input_count_ - 1)','            ? processed_inputs_.Get(processed_inputs_.Size() - 1)'),
('ip-val-pred','S04',IP,'  if (!real_inputs.IsEmpty() && !predicted_inputs.IsEmpty()) {','  if (real_inputs.Size() > 1 && !predicted_inputs.IsEmpty()) {'),
('ip-time','S04',IP,'''  current_elapsed_time_ = current_elapsed_time;
''','''  if (!queued_real_inputs_.IsEmpty()) current_elapsed_time_ = current_elapsed_time;
'''),
('ip-copy-omit','E05',IP,'''        .omit_attributes = omit_attributes[coat_index],''','''        .omit_attributes = omit_attributes[0],'''),
('ip-pack','E05',IP,'''GetMesh(coat_index).Format(), omit_attributes[coat_index]);''','''GetMesh(0).Format(), omit_attributes[0]);'''),
('st-elapsed','E05',ST,'inputs_.GetDuration());\n\n    const Mutable','Duration32::Zero());\n\n    const Mutable'),
('st-eps-brush','S07',ST,'''      brush.GetEpsilon() != brush_.GetEpsilon() ||''','''      brush.GetEpsilon() > brush_.GetEpsilon() ||'''),
('st-tips','S07',ST,'''  for (size_t i = 0; i < coats1.size(); ++i) {''','''  for (size_t i = 0; i < 1 && i < coats1.size(); ++i) {'''),
('st-reserve','E05',ST,'''  shape_gen.mesh_groups.clear();
''','''  if (shape_gen.mesh_groups.size() > num_coats) shape_gen.mesh_groups.clear();
'''),
('sb-bounds','E05',SB,'''  StrokeShapeUpdate update;
  mesh_bounds_.Reset();
''','''  StrokeShapeUpdate update;
'''),
('sb-particle','E06',SB,'''(coat.tips[i].particle_gap_distance_scale != 0 ||
         coat.tips[i].particle_gap_duration != Duration32::Zero())''','''(coat.tips[i].particle_gap_distance_scale != 0)'''),
('sb-outl','E05',SB,'      if (!indices.empty()) {','      if (indices.size() > 3) {'),
('sb-time','E05',SB,'  input_modeler_.ExtendStroke(real_inputs, predicted_inputs,\n                              current_elapsed_time);','  input_modeler_.ExtendStroke(real_inputs, predicted_inputs,\n                              real_inputs.GetDuration());'),
('cw-shared','T04',CW,'value_.use_count() > 1','value_.use_count() > 2'),
('ir-empty','T06',IR,'return begin_iterator_ == end_iterator_;','return !(begin_iterator_ < end_iterator_);'),
]
