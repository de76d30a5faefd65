C='ink/rendering/skia/native/internal/create_mesh_specification.cc'; K='ink/rendering/skia/native/internal/mesh_specification_cache.cc'
B=[
('cm-type','R05',C,'return SkMeshSpecification::Attribute::Type::kFloat3;','return SkMeshSpecification::Attribute::Type::kFloat4;'),
('cm-voff','R05',C,'.offset = static_cast<size_t>(attribute.offset),','.offset = static_cast<size_t>(static_cast<unsigned char>(attribute.offset)),'),
('cm-vary','R05',C,'return SkMeshSpecification::Varying::Type::kFloat4;','return SkMeshSpecification::Varying::Type::kHalf4;'),
('cm-count','R05',C,'spec.uniforms().size() != expected_uniforms.size()','spec.uniforms().size() < expected_uniforms.size()'),
('cm-null','R05',C,'if (skia_uniform == nullptr) {','if (skia_uniform == nullptr && expected_uniforms.size() == 1) {'),
('cm-utype','R05',C,'skia_uniform->type != expected_uniform.type','skia_uniform->type < expected_uniform.type'),
('cm-first','R05',C,'  for (const auto& expected_uniform : expected_uniforms) {','  for (const auto& expected_uniform : expected_uniforms.first(expected_uniforms.empty() ? 0 : 1)) {'),
('cm-src','R05',C,'      SkString(data.fragment_shader_source),','      SkString(data.vertex_shader_source),'),
('cm-alpha','R05',C,'kPremul_SkAlphaType);','kUnpremul_SkAlphaType);'),
('cm-space','R05',C,'MakeSRGBLinear()','MakeSRGB()'),
('cm-int','R05',C,'return SkMeshSpecification::Uniform::Type::kInt;','return SkMeshSpecification::Uniform::Type::kInt2;'),
('sc-le','R05',K,'stroke_shape.RenderGroupCount() <= coat_index','stroke_shape.RenderGroupCount() < coat_index'),
('sc-empty','R05',K,'stroke_shape.RenderGroupMeshes(coat_index).empty()','stroke_shape.RenderGroupMeshes(0).empty()'),
('sc-group','R05',K,'stroke_shape.RenderGroupFormat(coat_index)','stroke_shape.RenderGroupFormat(0)'),
('sc-nocache','R05',K,'    cached_specification = *std::move(specification);','    return specification;'),
('sc-live','R05',K,'  if (in_progress_stroke_specification_ == nullptr) {','  if (in_progress_stroke_specification_ == nullptr || stroke_specifications_.size() > 1) {'),
('sc-started','R05',K,'if (stroke.GetBrush() == nullptr) {','if (stroke.GetBrush() == nullptr && in_progress_stroke_specification_ == nullptr) {'),
]
