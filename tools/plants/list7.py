C='ink/color/color.cc'; CS='ink/color/color_space.cc'; SP='ink/rendering/skia/common_internal/mesh_specification_data.cc'; BB='ink/brush/brush_behavior.cc'; V='ink/geometry/vec.cc'; S='ink/geometry/segment.cc'; CH='ink/geometry/internal/convex_hull_helper.h'; A='ink/geometry/angle.cc'; PD='ink/types/physical_distance.h'; P='ink/geometry/point.h'
B=[
('c-gamut-alpha','C03',C,'copy.rgba_[kChannelAlpha] = std::min(1.0f, copy.rgba_[kChannelAlpha]);',''),
('c-scale-zero','C03',C,'''  for (float &c : copy.rgba_) {
    c = std::max(0.0f, c);
  }''','''  for (float &c : copy.rgba_) {
    c = std::fabs(c);
  }'''),
('c-scale-inf','C03',C,'std::isinf(copy.rgba_[i]) ? 1.0f : 0.0f','std::isinf(copy.rgba_[i]) ? 1.0f : std::min(copy.rgba_[i], 1.0f)'),
('c-near','C03',C,'rgba_[i] > 1.0f + kNearlyZero','rgba_[i] > 1.0f'),
('c-eq-space','C03',C,'''  if (color_space_ != other.color_space_) {
    return false;
  }
''',''),
('c-near-alpha','C03',C,'''  for (int i = 0; i < kNumChannelsIncludingAlpha; ++i) {
    if (std::fabs(''','''  for (int i = 0; i < kNumChannelsColorOnly; ++i) {
    if (std::fabs('''),
('c-pack','C02',C,'(static_cast<uint32_t>(ints.b) << 8) | static_cast<uint32_t>(ints.a)','(static_cast<uint32_t>(ints.g) << 8) | static_cast<uint32_t>(ints.a)'),
('c-round','C02',C,'std::round(255.0f * value)','255.0f * value'),
('c-premul','C01',C,'''      rgba.b *= rgba.a;
    }''','''      rgba.b *= rgba.g;
    }'''),
('c-premul0','C01',C,'if (rgba.a == 0.0f) {','if (rgba.a < 0.0f) {'),
('c-target','C03',C,'''converted_rgba[2], converted_rgba[3], Format::kLinear,
                          target);''','''converted_rgba[2], converted_rgba[3], Format::kLinear,
                          color_space_);'''),
('c-dec','C02',CS,'if (encoded_value < kSrgbD) {','if (encoded_value < 0.5 * kSrgbD) {'),
('c-row','C01',CS,'0, 3, 6, 1, 4,\n                                                               7, 2, 5, 8','0, 3, 6, 1, 4,\n                                                               5, 2, 7, 8'),
('c-conv-alpha','C01',CS,'m[5] * v[1] + m[8] * v[2]), v[3]','m[5] * v[1] + m[8] * v[2]), 1.0f'),
('b-damp-neg','B04',BB,'!std::isfinite(node.damping_gap) || node.damping_gap < 0','std::isnan(node.damping_gap) || node.damping_gap < 0'),
('b-range-eq','B04',BB,'std::isfinite(range[1]) && range[0] != range[1]','std::isfinite(range[1]) && range[0] <= range[1]'),
('b-range-inf','B04',BB,'std::isfinite(range[0]) &&\n         std::isfinite(range[1])','std::isfinite(range[0]) &&\n         !std::isnan(range[1])'),
('b-interp','B04',BB,'InterpolationNode& node) { return 3; }','InterpolationNode& node) { return 2; }'),
('b-left','B04',BB,'if (stack_depth > 0) {','if (stack_depth > 1) {'),
('b-since-ms','B04',BB,'''    case BrushBehavior::Source::kTimeSinceInputInSeconds:
    case BrushBehavior::Source::kTimeSinceInputInMillis:
      if (out''','''    case BrushBehavior::Source::kTimeSinceInputInMillis:
      break;
    case BrushBehavior::Source::kTimeSinceInputInSeconds:
      if (out'''),
('b-const','B04',BB,'if (!std::isfinite(node.value)) {','if (std::isinf(node.value)) {'),
('b-underflow','B04',BB,'if (stack_depth < input_count) {','if (i == 0 && stack_depth < input_count) {'),
('r-uvtype','R02',SP,'''surface_uv_type ==
      MeshFormat::AttributeType::kFloat2PackedIn4UnsignedBytes_X12_Y20''','''surface_uv_type ==
      MeshFormat::AttributeType::kFloat2PackedIn3UnsignedBytes_XY12'''),
('r-fwd-order','R02',SP,'''  if (attribute_indices.forward_derivative + 1 !=
      attribute_indices.forward_label) {''','''  if (attribute_indices.forward_derivative >=
      attribute_indices.forward_label) {'''),
('r-fwd-off','R02',SP,'''      .type = *derivative_and_label_type,
      .offset = attributes[attribute_indices.forward_derivative].packed_offset};''','''      .type = *derivative_and_label_type,
      .offset = attributes[attribute_indices.side_derivative].packed_offset};'''),
('r-hsl-off','R02',SP,'.offset = attributes[attribute_indices.hsl_shift].packed_offset};','.offset = attributes[attribute_indices.hsl_shift].unpacked_offset};'),
('r-opacity-req','R02',SP,'  if (attribute_indices.opacity_shift == -1 ||','  if ('),
('r-derivs','R02',SP,'''  if (derivative_type == MeshFormat::AttributeType::kFloat2Unpacked &&
      label_type == MeshFormat::AttributeType::kFloat1Unpacked) {''','''  if (derivative_type == MeshFormat::AttributeType::kFloat2Unpacked) {'''),
('v-inf-y','G02',V,'return Vec{std::copysign(0.f, x), std::copysign(1.f, y)};','return Vec{std::copysign(1.f, x), std::copysign(0.f, y)};'),
('v-half','G02',V,'return angle == kHalfTurn || Determinant','return Determinant'),
('v-clamp','G02',V,'Acos(std::clamp(DotProduct(a_unit, b_unit), -1.0f, 1.0f))','Acos(DotProduct(a_unit, b_unit))'),
('v-nan','G02',V,'if (std::isnan(x) || std::isnan(y)) {','if (std::isnan(x) && std::isnan(y)) {'),
('a-pi','G01',A,'radians <= static_cast<float>(-numbers::kPi)','radians < static_cast<float>(-numbers::kPi)'),
('s-lerp','G07',S,'''  return Point{start.x * reverse + end.x * ratio,
               start.y * reverse + end.y * ratio};''','''  (void)reverse; return start + ratio * (end - start);'''),
('s-proj-sub','G07',S,'if (magnitude_squared <= 0) {','if (magnitude_squared < 0) {'),
('h-ext','G12',CH,'p == upper_triangle.p2 || p == lower_triangle.p1;','p == upper_triangle.p2;'),
('h-lower','G12',CH,'''                          Point{GetX(min_y_point), GetY(min_y_point)},
                          Point{GetX(max_x_point), GetY(max_x_point)}};''','''                          Point{GetX(min_y_point), GetY(max_y_point)},
                          Point{GetX(max_x_point), GetY(max_x_point)}};'''),
('d-in','T02',PD,'return ToCentimeters() / kCentimetersPerInch;','return ToMeters() * 39.37f;'),
('d-ge','T02',PD,'return a.value_centimeters_ >= b.value_centimeters_;','return !(a.value_centimeters_ < b.value_centimeters_);'),
('p-sub','G02',P,'''  p.x -= v.x;
  p.y -= v.y;''','''  p.x -= v.x;
  p.y -= v.x;'''),
]
