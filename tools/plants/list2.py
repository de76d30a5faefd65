D='ink/strokes/internal/'; X=D+'brush_tip_extruder.cc'; MV=D+'brush_tip_extruder/mutable_mesh_view.cc'; DPO=D+'brush_tip_extruder/directed_partial_outline.cc'; FW=D+'brush_tip_extruder/find_clockwise_winding_segment.cc'; RP=D+'rounded_polygon.cc'; SB=D+'stroke_shape_builder.cc'; SM=D+'brush_tip_extruder/simplify.cc'; SO=D+'stroke_outline.cc'; EV=D+'brush_tip_extruder/extruded_vertex.cc'
B=[
('so-grow-max','E01',SO,'current_counts.right + new_index_counts.right','current_counts.right'),
('so-left-only','E01',SO,''' ||
      index_storage_.UnusedRightCapacity() < new_right_indices.size()''',''''''),
('mv-ins-first','E02',MV,'''        triangle, {indices[0], indices[1], indices[2]});
  }
  first_mutated_triangle_ = std::min(first_mutated_triangle_, triangle);''','''        triangle, {indices[0], indices[1], indices[2]});
  }
  first_mutated_triangle_ = std::min(first_mutated_triangle_, TriangleCount() - 1);'''),
('mv-label-track','E02',MV,'''  StrokeVertex::SetForwardLabelInMesh(*std::get<MutableMesh*>(data_), index,
                                      label);
  first_mutated_vertex_ = std::min(first_mutated_vertex_, index);''','''  StrokeVertex::SetForwardLabelInMesh(*std::get<MutableMesh*>(data_), index,
                                      label);'''),
('mv-resize-tri','E02',MV,'''      std::min(first_mutated_triangle_, new_triangle_count);''','''      std::min(first_mutated_triangle_, TriangleCount() + 1);'''),
('mv-fwd-side','E02',MV,'StrokeVertex::GetForwardDerivativeFromMesh(**mesh, index)','StrokeVertex::GetSideDerivativeFromMesh(**mesh, index)'),
('dpo-off','E03',DPO,'''.starting_index = i - 1,
          .ending_index = i,''','''.starting_index = i,
          .ending_index = i,'''),
('dpo-retri','E03',DPO,'''side.intersection.has_value() &&
                 side.intersection->retriangulation_started''','''side.intersection.has_value()'''),
('dpo-budget','E03',DPO,'''      search_budget -=
          DistanceBetween(outline_segment.start,
                          outline_segment.Lerp(result->segment1_interval[0]));''','''      search_budget -= outline_segment.Length();'''),
('dpo-seg2','E03',DPO,'''          .outline_interpolation_value = result->segment1_interval[0],
          .segment_interpolation_value = result->segment2_interval[0]};
      search_budget''','''          .outline_interpolation_value = result->segment1_interval[0],
          .segment_interpolation_value = result->segment2_interval[1]};
      search_budget'''),
('dpo-connect','E03',DPO,'''          ? ending_side_last - ending_side_first + 1
          : 0''','''          ? ending_side_last - ending_side_first
          : 0'''),
('fw-skip-dup','E03',FW,'if (current_position == last_position) continue;','if (current_position == last_position) break;'),
('fw-discont','E03',FW,'if (outer_index_offset_range.first <= discontinuity_range.first) {','if (outer_index_offset_range.first < discontinuity_range.first) {'),
('fw-last','E03',FW,'uint32_t last = std::min(upper_bound, outer_index_offset_range.last);\n    upper_bound','uint32_t last = outer_index_offset_range.last;\n    upper_bound'),
('fw-lastpos','E03',FW,'    last_position = current_position;\n','    if (triangle.SignedArea() > 0) last_position = current_position;\n'),
('sm-farthest','E03',SM,'farthest_point + 1, interior_end','farthest_point, interior_end - 1'),
('sm-max','E03',SM,'if (distance > max_distance) {\n      farthest_point = it;\n      max_distance = distance;','if (distance > epsilon) {\n      farthest_point = it;\n      max_distance = distance;'),
('ev-second','K03',EV,'''          Lerp(a.new_non_position_attributes, b.new_non_position_attributes, t),''','''          Lerp(b.new_non_position_attributes, a.new_non_position_attributes, 1 - t),'''),
('rp-major','K06',RP,'if (!is_left_of_start && !is_right_of_end) return std::nullopt;','if (!is_left_of_start) return std::nullopt;'),
('rp-proj','K06',RP,'*projection > 1 + kTolerance','*projection > 1 - 1e-3f'),
('rp-all','K06',RP,'for (size_t i = 0; i < arcs_.size(); ++i) {\n    if (SignedDistanceToArc','for (size_t i = 0; i < arcs_.size() && i < 3; ++i) {\n    if (SignedDistanceToArc'),
('rp-radius','K06',RP,'''SignedDistanceToSegment(GetSegment(i), circle.Center()) >
            -circle.Radius()''','''SignedDistanceToSegment(GetSegment(i), circle.Center()) > 0'''),
('x-save-after','E04',X,'''  UpdateCachedPartialBounds();
  Save();

  for (size_t i = 0; i < volatile_states''','''  UpdateCachedPartialBounds();
  if (!new_fixed_states.empty()) Save();

  for (size_t i = 0; i < volatile_states'''),
('x-start-outline','E04',X,'outlines_.resize(1);\n  outlines_[0].TruncateIndices({0, 0});','outlines_.resize(1);'),
('x-start-saved','E04',X,'  saved_extrusion_data_count_ = 0;\n  deleted_save_point_extrusions_.clear();\n  geometry_.Reset','  saved_extrusion_data_count_ = 0;\n  geometry_.Reset'),
('x-restore-copy','E04',X,'  absl::c_copy(deleted_save_point_extrusions_,\n               extrusions_.end() - deleted_save_point_extrusions_.size());\n',''),
('x-clear-bounds','E04',X,'  TruncateOutlines();\n  ClearCachedPartialBounds();','  TruncateOutlines();'),
('x-clear-cond','E04',X,'''deleted_save_point_extrusions_.empty() &&
      static_cast<size_t>(''','''static_cast<size_t>('''),
('x-first-idx','E04',X,'''        kIndicesPerTriangle * mesh_view.FirstMutatedTriangle();''','''        mesh_view.FirstMutatedTriangle();'''),
('x-first-vtx','E04',X,'''  if (mesh_view.FirstMutatedVertex() != mesh_view.VertexCount() ||
      mesh_view.VertexCount() != vertex_count_before_update) {''','''  if (mesh_view.VertexCount() != vertex_count_before_update) {'''),
('x-order','E04',X,'''  geometry_.ResetMutationTracking();
  uint32_t triangle_count_before_update =
      geometry_.GetMeshView().TriangleCount();
  uint32_t vertex_count_before_update = geometry_.GetMeshView().VertexCount();

  Restore();
''','''  uint32_t triangle_count_before_update =
      geometry_.GetMeshView().TriangleCount();
  uint32_t vertex_count_before_update = geometry_.GetMeshView().VertexCount();

  Restore();
  geometry_.ResetMutationTracking();
'''),
('x-trunc-count','E04',X,'uint32_t max_num_outlines = geometry_.ExtrusionBreakCount() + 1;\n  if (outlines_.size() >= max_num_outlines) {','uint32_t max_num_outlines = geometry_.ExtrusionBreakCount() + 1;\n  if (outlines_.size() > max_num_outlines) {'),
('x-cached-last','E04',X,'''    new_indices.remove_suffix(1);''','''    (void)0;'''),
('x-bounds-right','E04',X,'''          .subspan(bounds_.cached_partial_bounds_right_index_count),
      bounds_.current);''','''          .subspan(bounds_.cached_partial_bounds_left_index_count),
      bounds_.current);'''),
('x-eps-and','E06',X,'tip_state.width < brush_epsilon_ && tip_state.height < brush_epsilon_','tip_state.width < brush_epsilon_ || tip_state.height < brush_epsilon_'),
('x-uv-clamp','E06',X,'std::clamp(transformed.y, 0.f, 1.f)','transformed.y'),
('x-hsl','E06',X,'tip_state.saturation_multiplier - 1.f','tip_state.saturation_multiplier'),
('x-extruded-state','E06',X,'const BrushTipState& extruded_state = (end_iter - 2)->GetState();','const BrushTipState& extruded_state = (end_iter - 1)->GetState();'),
('x-break-right','E04',X,'''          .subspan(counts_at_last_break.right + outline_counts.right);''','''          .subspan(counts_at_last_break.right);'''),
('x-contained-break','E06',X,'while (it != extrusions_.rend() && !it->IsBreakPoint()) {','while (it != extrusions_.rend()) {\n        if (it->IsBreakPoint()) { ++it; continue; }'),
('sb-bounds-reset','E05',SB,'''                              current_elapsed_time);
  StrokeShapeUpdate update;
  mesh_bounds_.Reset();
''','''                              current_elapsed_time);
  StrokeShapeUpdate update;
'''),
('sb-outlines','E05',SB,'  outlines_.clear();\n  for','  if (!tips_.empty() && mesh_.TriangleCount() == 0) outlines_.clear();\n  for'),
('sb-winding','E06',SB,'return coat.paint.texture_layers.size() == 1 &&','return coat.paint.texture_layers.size() >= 1 &&'),
]
