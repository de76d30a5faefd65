A='ink/geometry/affine_transform.cc'; R='ink/geometry/rect.cc'; RH='ink/geometry/rect.h'; BS='ink/strokes/internal/brush_tip_shape.cc'; ST='ink/strokes/stroke.cc'
BF='ink/brush/brush_family.cc'; BC='ink/brush/brush_coat.cc'; BT='ink/brush/brush_tip.cc'; D='ink/types/duration.h'; SA='ink/types/small_array.h'; AL='ink/geometry/internal/algorithms.cc'; BM='ink/rendering/bitmap.cc'
B=[
('af-about-x','G06',A,'''      x_scale_factor, 0, center.x - (x_scale_factor * center.x), 0,
      y_scale_factor, center.y - (y_scale_factor * center.y));''','''      x_scale_factor, 0, center.x - (x_scale_factor * center.x), 0,
      y_scale_factor, center.y - (x_scale_factor * center.y));'''),
('af-rot-about','G06',A,'center.y - center.x * sin - center.y * cos','center.y - center.x * sin + center.y * cos'),
('af-quad-zeroheight','G06',A,'q.Height() == 0 ? q.ShearFactor() * u + u.Orthogonal() : semi_axes.second','q.Height() == 0 ? u.Orthogonal() : semi_axes.second'),
('af-quad-zerowidth','G06',A,'Vec u = q.Width() == 0 ? Vec::FromDirectionAndMagnitude(q.Rotation(), 1)','Vec u = q.Width() == 0 ? Vec{1, 0}'),
('af-quad-flip','G06',A,'2 * u_cross_v / u_magnitude','2 * std::abs(u_cross_v) / u_magnitude'),
('af-find-seg-deg','G06',A,'''    if (to_length == 0) {
      return Translate''','''    if (to_length >= 0) {
      return Translate'''),
('af-find-shift','G06',A,'scaled_cos * v1.x - scaled_sin * v1.y + v2.x','scaled_cos * v1.x + scaled_sin * v1.y + v2.x'),
('af-find-tri-deg','G06',A,'if (d == 0 || from.SignedArea() == 0) return','if (from.SignedArea() == 0) return'),
('af-find-tri-term','G06',A,'(b1.x * a0.x * a2.y) - (b0.x * a1.x * a2.y);','(b1.x * a0.x * a2.y) - (b0.x * a2.x * a2.y);'),
('af-mul-c','G06',A,'lhs.A() * rhs.C() + lhs.B() * rhs.F() + lhs.C()','lhs.A() * rhs.C() + lhs.B() * rhs.F() + rhs.C()'),
('rc-center','G03',R,'std::isnan(y) ? 0.f : y','std::isnan(x) ? 0.f : y'),
('rc-edge3','G03',R,'Segment{Point{x_min_, y_max_}, Point{x_min_, y_min_}}','Segment{Point{x_min_, y_min_}, Point{x_min_, y_max_}}'),
('rc-cont','G03',R,'''    corrected_height = Height();
    corrected_width = Height() * aspect_ratio;
  } else {
    corrected_width = Width();
    corrected_height = Width() / aspect_ratio;
  }''','''    corrected_height = Height();
    corrected_width = Width() * aspect_ratio;
  } else {
    corrected_width = Width();
    corrected_height = Width() / aspect_ratio;
  }'''),
('rc-int0','G03',R,'''ABSL_CHECK(aspect_ratio >= 0) << "Aspect ratio cannot be < 0";
  float corrected_width;
  float corrected_height;
  if (aspect_ratio > AspectRatio()) {''','''ABSL_CHECK(aspect_ratio >= 0) << "Aspect ratio cannot be < 0";
  float corrected_width;
  float corrected_height;
  if (aspect_ratio >= 1 && aspect_ratio > AspectRatio()) {'''),
('ts-radius','K05',BS,'float min_half_dimension = std::min(half_width, half_height);','float min_half_dimension = half_width;'),
('ts-combine-y','K05',BS,'if (2 * y < min_nonzero_radius_and_separation) y = 0;','if (2 * x < min_nonzero_radius_and_separation) y = 0;'),
('ts-slant-x','K05',BS,'slant.Apply(Point{0, circle_center.y}) + Vec{circle_center.x, 0}','slant.Apply(circle_center)'),
('ts-rotate-order','K05',BS,'''      AffineTransform::Translate(tip_state.position.Offset()) *
      AffineTransform::Rotate(tip_state.rotation);''','''      AffineTransform::Rotate(tip_state.rotation) *
      AffineTransform::Translate(tip_state.position.Offset());'''),
('ts-pinch-top','K05',BS,'{{x, y}, {-x, y}, {-x_after_pinch, -y}, {x_after_pinch, -y}}','{{x_after_pinch, y}, {-x_after_pinch, y}, {-x, -y}, {x, -y}}'),
('ts-tri','K05',BS,'{{x, y}, {-x, y}, {0, -y}}','{{x, -y}, {-x, -y}, {0, y}}'),
('ts-bounds-d','K05',BS,'''    d = 2 * c.Radius();
    bounds.Join(Rect::FromCenterAndDimensions(c.Center(), d, d));''','''    bounds.Join(Rect::FromCenterAndDimensions(c.Center(), d, c.Radius()));'''),
('ts-rear-tie','K05',BS,'} else if (determinant < right_determinant) {','} else if (determinant > right_determinant) {'),
('ts-left-tie','K05',BS,'tangent->turn_angle > leftmost_tangent.turn_angle ||','tangent->turn_angle < leftmost_tangent.turn_angle ||'),
('ts-left-break','K05',BS,'''      indices.left = {candidate_index_on_first, *index_on_second};
      break;''','''      indices.left = {candidate_index_on_first, *index_on_second};'''),
('ts-right-arc','K05',BS,'''      middle_index = middle.GetNextPerimeterIndexCcw(middle_index);
      circles.push_back(middle.circles_[middle_index]);''','''      middle_index = middle.GetNextPerimeterIndexCw(middle_index);
      circles.push_back(middle.circles_[middle_index]);'''),
('ts-turn-wrap','K05',BS,'''  if (outgoing_angles.left < incoming_angles.left)
    outgoing_angles.left += kFullTurn;''',''),
('ts-fallback','K05',BS,'''      extrusion_points.left.push_back(incoming_tangent.end);
      extrusion_points.left.push_back(outgoing_tangent.start);''','''      extrusion_points.left.push_back(outgoing_tangent.start);'''),
('ts-move-j','K05',BS,'if (j < 0) j += new_point_count;','if (j < 0) j += new_point_count - 1;'),
('ts-start-idx','K05',BS,'starting_right_index = new_points.size() - 1;','starting_right_index = new_right_point_count - 1;'),
('ts-endcap','K05',BS,'while (boundary_index >= size_before_append &&','while (boundary_index > size_before_append &&'),
('ts-whole-n','K05',BS,'for (int j = 0; j < shape.circles_.Size() + 2; ++j) {','for (int j = 0; j < shape.circles_.Size() + 1; ++j) {'),
('ts-whole-arc','K05',BS,'circle.AppendArcToPolyline(right_arc_start, kHalfTurn - max_chord_angle,','circle.AppendArcToPolyline(right_arc_start, kHalfTurn,'),
('ts-contains-first','K05',BS,'''      if (!circle.Contains(c)) return false;
    }
    return true;''','''      if (circle.Contains(c)) return true;
    }
    return false;'''),
('ts-contains-in','K05',BS,'    incoming_ccw_angle = outgoing_ccw_angle;\n',''),
('ts-outside','K05',BS,'if (angle < ccw_incoming_angle) angle += kFullTurn;','if (angle < ccw_incoming_angle) continue;'),
('st-eps','S07',ST,'      brush.GetEpsilon() != brush_.GetEpsilon() ||\n',''),
('st-coats','S07',ST,'if (coats1.size() != coats2.size()) {','if (coats1.size() > coats2.size()) {'),
('st-status','S07',ST,'''  absl::Status status = brush_.SetSize(size);
  if (!status.ok()) {
    return status;
  }
  RegenerateShape();''','''  absl::Status status = brush_.SetSize(size);
  RegenerateShape();
  if (!status.ok()) {
    return status;
  }'''),
('st-fail-keeps','S07',ST,'''                      << partitioned_mesh.status();
    shape_ = PartitionedMesh::WithEmptyGroups(brush_.CoatCount());''','''                      << partitioned_mesh.status();'''),
('st-clear-groups','S07',ST,'  shape_gen.mesh_groups.clear();\n',''),
('st-first-builder','S07',ST,'StrokeShapeBuilder& builder = shape_gen.builders[i];','StrokeShapeBuilder& builder = shape_gen.builders[0];'),
('st-eps-size','S07',ST,'''                        brush_.GetSize(), brush_.GetEpsilon());
    builder''','''                        brush_.GetSize(), 0.5f * brush_.GetEpsilon());
    builder'''),
('bf-uri-first','B07',BF,'if (uri.GetAssetType() != Uri::AssetType::kBrushFamily) {','if (uri.GetAssetType() != Uri::AssetType::kBrushFamily && uri.GetAssetType() != Uri::AssetType::kTexture) {'),
('bf-max','B07',BF,'if (coats.size() > MaxBrushCoats()) {','if (coats.size() > MaxBrushCoats() + 1) {'),
('bf-coat-loop','B07',BF,'''    if (absl::Status status = brush_internal::ValidateBrushCoat(coat);
        !status.ok()) {
      return status;
    }
  }''','''    if (absl::Status status = brush_internal::ValidateBrushCoat(coat);
        !status.ok()) {
      return status;
    }
    if (coat.paint.texture_layers.empty()) break;
  }'''),
('bf-input-model','B07',BF,'''  return BrushFamily(std::vector<BrushCoat>(coats.begin(), coats.end()),
                     std::move(uri), input_model);''','''  return BrushFamily(std::vector<BrushCoat>(coats.begin(), coats.end()),
                     std::move(uri), DefaultInputModel());'''),
('bc-shift','B07',BC,'''            return true;
          default:
            break;''','''            return true;
          default:
            return false;'''),
('bc-layer','B07',BC,'''      ids.push_back(MeshFormat::AttributeId::kSurfaceUv);
      break;''','''      ids.push_back(MeshFormat::AttributeId::kSurfaceUv);'''),
('bt-scale','B03',BT,'tip.scale.x < 0 || tip.scale.y < 0 || tip.scale == Vec{0, 0}','tip.scale.x < 0 || tip.scale.y < 0 || tip.scale.x == 0'),
('bt-gap','B03',BT,'''  if (!std::isfinite(tip.particle_gap_distance_scale) ||
      tip.particle_gap_distance_scale < 0) {''','''  if (std::isnan(tip.particle_gap_distance_scale) ||
      tip.particle_gap_distance_scale < 0) {'''),
('bt-eq','B03',BT,'         particle_gap_duration == other.particle_gap_duration &&\n',''),
('bt-slant','B03',BT,'!(tip.slant >= -kQuarterTurn && tip.slant <= kQuarterTurn)','!(tip.slant > -kQuarterTurn && tip.slant <= kQuarterTurn)'),
('du-add','T01',D,'''  if (!a.IsFinite()) return a;
  return Duration32(a.value_seconds_ + b.value_seconds_);''','''  return Duration32(a.value_seconds_ + b.value_seconds_);'''),
('du-millis','T01',D,'''  if (std::isnan(ms)) return Infinite();
  return Duration32(0.001f * ms);''','''  return Duration32(0.001f * ms);'''),
('sa-shrink','T05',SA,'''      std::fill(data_.begin() + new_size, data_.begin() + size_, T());
''','''      std::fill(data_.begin() + size_, data_.begin() + size_, T());
'''),
('sa-eq','T05',SA,'return absl::c_equal(lhs.Values(), rhs.Values());','return std::equal(lhs.Values().begin(), lhs.Values().end(), rhs.Values().begin());'),
('al-proj','G10',AL,'''  return (negative_twice_triangle_signed_area / base_length_squared) *
         base_vector.Orthogonal();''','''  return (-negative_twice_triangle_signed_area / base_length_squared) *
         base_vector.Orthogonal();'''),
('al-ratio-b','G10',AL,'std::max(std::min(*b_project_a_start, *b_project_a_end), 0.0f)};','std::min(*b_project_a_start, *b_project_a_end)};'),
('al-par','G10',AL,'''    if ((*a_project_b_start < 0 && *a_project_b_end < 0) ||''','''    if ((*a_project_b_start <= 0 && *a_project_b_end <= 0) ||'''),
('al-inv','G11',AL,'if (b - a == 0.f) {','if (a == b) {'),
('bm-h','R01',BM,'if (bitmap.height() <= 0) {','if (bitmap.height() < 0) {'),
('bm-overflow','R01',BM,'static_cast<size_t>(bitmap.width()) *\n                              static_cast<size_t>(bitmap.height()) *','static_cast<size_t>(bitmap.width() * bitmap.height()) *'),
('bm-size','R01',BM,'if (actual_data_size != expected_data_size) {','if (actual_data_size < expected_data_size) {'),
]
