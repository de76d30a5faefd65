D='ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc'; H='ink/strokes/internal/brush_tip_extruder/derivative_calculator_helpers.cc'; SV='ink/strokes/internal/stroke_vertex.cc'
B=[
('dc-zero','E07',D,'  if (m == 0) return;\n',''),
('dc-count','E07',D,'  count_ += other.count_;','  if (other.count_ > 0) ++count_;'),
('dc-min','E07',D,'minimum_tracked_index_ = std::min(left','minimum_tracked_index_ = std::max(left'),
('dc-break','E07',D,'''        triangle_indices[1] < minimum_tracked_index &&
        triangle_indices[2] < minimum_tracked_index) {
      break;''','''        triangle_indices[1] < minimum_tracked_index) {
      break;'''),
('dc-left','E07',D,'side_categories[0] == side_categories[2]) {','side_categories[0] != SV_R) {'.replace('SV_R','StrokeVertex::SideCategory::kExteriorRight')),
('dc-right','E07',D,'''             side_categories[1] == side_categories[2]) {''','''             side_categories[0] != side_categories[2]) {'''),
('dc-proj','E07',D,'SaveSideDerivative(triangle_indices, (*projections_to_edge)[1]);','SaveSideDerivative(triangle_indices, -(*projections_to_edge)[0]);'),
('dc-fwd02','E07',D,'''  if (forward_categories[0] == forward_categories[2]) {
    SaveForwardDerivative(triangle_indices, (*projections_to_edge)[2]);
  }''',''),
('dc-fwd01','E07',D,'SaveForwardDerivative(triangle_indices, -(*projections_to_edge)[0]);','SaveForwardDerivative(triangle_indices, (*projections_to_edge)[0]);'),
('dc-coin-side','E07',D,'''        mesh.GetSideLabel(index).DecodeSideCategory() != first_side_category ||
''',''),
('dc-coin-fwd','E07',D,''' ||
        mesh.GetForwardLabel(index).DecodeForwardCategory() !=
            first_forward_category) {''',''') {'''),
('dc-avg-first','E07',D,'''  for (uint32_t i : indices) {
    const auto& values =''','''  for (uint32_t i : indices.first(1)) {
    const auto& values ='''),
('dc-clamp','E07',D,'value_or(0.5f), 0.1f, 0.9f)','value_or(0.5f), 0.f, 1.f)'),
('dc-neg','E07',D,'if (intersection.has_value() && intersection->first >= 0) {','if (intersection.has_value() && intersection->first > 0 && intersection->second <= 1) {'),
('dc-collinear','E07',D,'SaveSideMarginUpperBound(triangle_indices[i], 0);\n      }','SaveSideMarginUpperBound(triangle_indices[i], StrokeVertex::kMaximumMargin);\n      }'),
('dc-collinear2','E07',D,'triangle.p0 != triangle.p1 && triangle.p0 != triangle.p2 &&','triangle.p0 != triangle.p1 &&'),
('dc-bound2','E07',D,'''        MarginUpperBound(side_outset_segment, bounding_segments[(i + 2) % 3]));''','''        MarginUpperBound(side_outset_segment, bounding_segments[(i + 1) % 3]));'''),
('dc-edges','E07',D,'MakeBoundingSegment(triangle.p1, triangle.GetEdge(2)),','MakeBoundingSegment(triangle.p1, triangle.GetEdge(1)),'),
('dc-back','E07',D,'''    if (previous_category == StrokeVertex::ForwardCategory::kExteriorBack &&
        current_category != previous_category) {''','''    if (previous_category == StrokeVertex::ForwardCategory::kExteriorFront &&
        current_category != previous_category) {'''),
('dc-conn','E07',D,'    if (mesh.GetPosition(index) != first_point) break;\n\n    StrokeVertex','    break;\n\n    StrokeVertex'),
('dc-minmargin','E07',D,'current = std::min(current, margin);','current = margin;'),
('dc-order','E07',D,'''  AccumulateMargins(mesh);
  UpdateMeshMargins(left''','''  tracked_side_margin_upper_bounds_.resize(mesh.VertexCount()); AccumulateMargins(mesh); tracked_side_margin_upper_bounds_.back() = StrokeVertex::kMaximumMargin;
  UpdateMeshMargins(left'''),
('dc-lower','E07',SV,'std::floor(LinearMap(','std::ceil(LinearMap('),
('dh-right','E07',H,'''} else if (!index_pair.right.has_value() &&
                 VertexIsExterior''','''} else if (!index_pair.right.has_value() || 
                 VertexIsExterior'''),
('dh-fwd','E07',H,' ||\n         mesh.GetForwardLabel(index) != StrokeVertex::kInteriorLabel',''),
('dh-front','E07',H,'forward_category == StrokeVertex::ForwardCategory::kExteriorFront','current_forward_category == StrokeVertex::ForwardCategory::kExteriorFront'),
('dh-update','E07',H,'    forward_category = current_forward_category;\n',''),
]
