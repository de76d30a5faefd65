G='ink/geometry/'; DI=G+'distance.cc'; Q=G+'quad.cc'; AL=G+'internal/algorithms.cc'; II=G+'internal/intersects_internal.cc'; PO=G+'internal/polyline_processing.cc'; RT=G+'internal/static_rtree.cc'; CI=G+'internal/circle.cc'
B=[
('di-tri-deg','G09',DI,'''Distance(segment, quad.GetEdge(2)), Distance(segment, quad.GetEdge(3))});''','''Distance(segment, quad.GetEdge(2))});'''),
('di-quad-flat','G09',DI,'if (quad.Width() == 0 && quad.Height() == 0)\n    return Distance(quad.Center(), point);','if (quad.Width() == 0)\n    return Distance(quad.Center(), point);'),
('di-rect-quad','G09',DI,'Distance(rect.GetEdge(2), quad), Distance(rect.GetEdge(3), quad)','Distance(rect.GetEdge(2), quad), Distance(rect.GetEdge(1), quad)'),
('quad-contains-shear','G05',Q,'return std::abs(u_dot_q - shear_factor_ * u_cross_q) <= .5f * width_;','return std::abs(u_dot_q - shear_factor_ * std::abs(u_cross_q)) <= .5f * width_;'),
('quad-axes-cos','G05',Q,'(shear_factor_ * cos_rotation - sin_rotation),\n            .5f','(shear_factor_ / cos_rotation - sin_rotation),\n            .5f'),
('quad-unit-shear','G05',Q,'Vec axis_2 = Vec{q.ShearFactor() * cos_rotation - sin_rotation,','Vec axis_2 = Vec{q.ShearFactor() / cos_rotation - sin_rotation,'),
('quad-join-neg','G05',Q,'''                   std::copysign(1.f, height_) * (new_height - height_);''','''                   (new_height - height_);'''),
('quad-join-stale','G05',Q,'  height_ = new_height;\n  semi_axes_.reset();','  height_ = new_height;'),
('quad-join-woff','G05',Q,'width_, .5f * width_ + std::abs(u_dot_q - shear_factor_ * u_cross_q));','width_, .5f * width_ + std::abs(u_dot_q));'),
('bary-swap','G10',AL,'return std::array<float, 3>({b0, b1, 1 - b0 - b1});','return std::array<float, 3>({b0, b1, std::max(0.f, 1 - b0 - b1)});'),
('spiral-neg','G11',AL,'float magnitude = (1 - t) * a.Magnitude() + t * b.Magnitude();','float magnitude = std::abs((1 - t) * a.Magnitude() + t * b.Magnitude());'),
('proj-vec-sign','G10',AL,'Vec::Determinant(base_vector, segment.start - point);','Vec::Determinant(base_vector, point - segment.start);'),
('angle-lerp','G11',AL,'return (a + Lerp(Angle(), (b - a).NormalizedAboutZero(), t)).Normalized();','return (a + Lerp(Angle(), (b - a).Normalized(), t)).Normalized();'),
('invlerp-eps','G11',AL,'if (b - a == 0.f) {\n    return 0.f;','if (std::abs(b - a) < 1e-6f) {\n    return 0.f;'),
('ssi-par-clamp','G10',AL,'std::max(std::min(*b_project_a_start, *b_project_a_end), 0.0f)};','std::min(*b_project_a_start, *b_project_a_end)};'),
('ssi-par-both','G10',AL,'(*a_project_b_start > 1 && *a_project_b_end > 1)) {','(*a_project_b_start > 1 || *a_project_b_end > 1)) {'),
('ssi-equal','G10',AL,'if (a == b) return std::pair{0.f, 0.f};','if (a == b) return std::pair{0.f, 1.f};'),
('ssi-pointlike','G10',AL,'''      return std::pair{*a_project_b_start, 0.0f};''','''      return std::pair{0.0f, *a_project_b_start};'''),
('collapse-one','M09',AL,'for (uint32_t v_idx : mesh.TriangleIndices(t_idx)) {','for (uint32_t v_idx : {mesh.TriangleIndices(t_idx)[0], mesh.TriangleIndices(t_idx)[1]}) {'),
('ii-seg-collinear','G08',II,'(*projection_1 <= 1 || *projection_2 <= 1);','(*projection_1 <= 1 && *projection_2 <= 1);'),
('ii-seg-v','G08',II,'return v1 * v2 <= 0 && v3 * v4 <= 0;','return v1 * v2 <= 0 && v3 * v4 < 0;'),
('ii-tri-tri','G08',II,'if (b.Contains(a.p0) || a.Contains(b.p0)) return true;','if (b.Contains(a.p0)) return true;'),
('ii-quad-quad-edges','G08',II,'''  if (b.Contains(a.Center()) || a.Contains(b.Center())) return true;
  // Check if any lines of one shape intersect any lines of the other shape.
  for (int i = 0; i < 4; ++i) {
    for (int j = 0; j < 4; ++j) {
      if (IntersectsInternal(a.GetEdge(i), b.GetEdge(j))) return true;
    }
  }
  // If none of the lines intersect and neither shape fully contains the other
  // then there is no intersection.
  return false;
}

}  // namespace geometry_internal''','''  if (b.Contains(a.Center()) || a.Contains(b.Center())) return true;
  // Check if any lines of one shape intersect any lines of the other shape.
  for (int i = 0; i < 4; ++i) {
    for (int j = i; j < 4; ++j) {
      if (IntersectsInternal(a.GetEdge(i), b.GetEdge(j))) return true;
    }
  }
  // If none of the lines intersect and neither shape fully contains the other
  // then there is no intersection.
  return false;
}

}  // namespace geometry_internal'''),
('ii-tri-rect','G08',II,'if (b.Width() == 0 && b.Height() == 0)\n    return IntersectsInternal(b.Center(), a);\n  // No special casing for Segment-like Triangles and rects','if (b.Width() == 0 || b.Height() == 0)\n    return IntersectsInternal(b.Center(), a);\n  // No special casing for Segment-like Triangles and rects'),
('ii-rect-touch','G08',II,'a.YMin() > b.YMax()','a.YMin() >= b.YMax()'),
('po-walk','G15',PO,'  float total_distance = polyline.segments[index].length * fractional_index;','  float total_distance = polyline.segments[index].length * (walk_backwards ? 1 - fractional_index : fractional_index) * 0 + polyline.segments[index].length * fractional_index * 1.5f;'),
('po-last-seg','G15',PO,'i >= polyline.last_intersection.index_int; --i) {','i > polyline.last_intersection.index_int; --i) {'),
('po-ge-first','G15',PO,'other_segment.index > polyline.first_intersection.index_int - 1','other_segment.index > polyline.first_intersection.index_int'),
('po-neighbor','G15',PO,'if (other_segment.index > current_segment_bundle.index + 1) {','if (other_segment.index > current_segment_bundle.index + 2) {'),
('po-better-last','G15',PO,'''         best_first_point_connection.index_fraction >
             polyline.last_intersection.index_fraction;''','''         best_first_point_connection.index_fraction <
             polyline.last_intersection.index_fraction;'''),
('po-better-first','G15',PO,'''  if (best_last_point_connection.index_int <
      polyline.first_intersection.index_int) {
    return true;
  }''','''  if (best_last_point_connection.index_int <=
      polyline.first_intersection.index_int) {
    return true;
  }'''),
('po-trim','G15',PO,'polyline.connect_first ? 0 : polyline.first_intersection.index_int + 1;','polyline.connect_first ? 0 : polyline.first_intersection.index_int;'),
('po-trim-ratio','G15',PO,'''        walk_backwards ? polyline.last_intersection.walk_distance
                       : polyline.first_intersection.walk_distance;''','''        walk_backwards ? polyline.first_intersection.walk_distance
                       : polyline.last_intersection.walk_distance;'''),
('po-clamp','G15',PO,'''              current_segment.segment.Project(last_point);
          ABSL_CHECK(connection_projection.has_value());
          float clamped_projection =
              std::clamp(*connection_projection, 0.0f, 1.0f);''','''              current_segment.segment.Project(last_point);
          ABSL_CHECK(connection_projection.has_value());
          float clamped_projection = *connection_projection;'''),
('po-dup','G15',PO,'''  if (polyline.new_last_point != new_polyline.back() &&
      polyline.has_intersection) {''','''  if (polyline.has_intersection) {'''),
('po-unique','G15',PO,'if (distinct_points.size() < 4) {','if (points.size() < 4) {'),
('rt-depth','G13',RT,'if (n_leaf_nodes <= branching_factor) {','if (n_leaf_nodes < branching_factor) {'),
('rt-off','G13',RT,'std::ceil(static_cast<double>(n_at_current_level) / branching_factor)','std::ceil(static_cast<float>(n_at_current_level) / branching_factor)'),
('ci-arc','G14',CI,'polyline.push_back(GetPoint(start + arc_angle));','polyline.push_back(GetPoint(start + steps * step_angle * 0.999f));'),
('ci-clamp','G14',CI,'std::ceil(std::abs(arc_angle / max_step_angle))','std::floor(std::abs(arc_angle / max_step_angle))'),
('ci-tangent','G14',CI,'std::abs(delta_radius) >= distance','std::abs(delta_radius) > distance'),
('ci-chord','G14',CI,'return 2 * Acos(std::clamp(1 - chord_height / radius_, -1.f, 1.f));','return 2 * Acos(std::clamp(1 - chord_height / radius_, 0.f, 1.f));'),
]
