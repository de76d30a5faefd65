P='ink/rendering/skia/native/internal/path_drawable.cc'; M='ink/rendering/skia/native/internal/mesh_drawable.cc'
B=[
('pd-first','R04',P,'''  Point position = mesh.VertexPosition(outline_indices.front());
  outline_indices.remove_prefix(1);''','''  Point position = mesh.VertexPosition(outline_indices.back());
  outline_indices.remove_suffix(1);'''),
('pd-mesh','R04',P,'''    position = mesh_group[index_pair.mesh_index].VertexPosition(''','''    position = mesh_group[group_outline_indices.front().mesh_index].VertexPosition('''),
('pd-stop','R04',P,'''        shape.Outline(render_group_index, i);
    if (indices.empty()) continue;''','''        shape.Outline(render_group_index, i);
    if (indices.size() < 2) continue;'''),
('pd-break','R04',P,'''    if (indices.empty()) continue;

    paths_.push_back(MakePolygonPath(mesh, indices));''','''    if (indices.empty()) break;

    paths_.push_back(MakePolygonPath(mesh, indices));'''),
('pd-alpha','R04',P,'.fA = c.a * opacity_multiplier_','.fA = c.a'),
('pd-space','R04',P,'color.InColorSpace(ColorSpace::kSrgb).AsFloat(Color::Format::kLinear)','color.AsFloat(Color::Format::kLinear)'),
('pd-group','R04',P,'i < shape.OutlineCount(render_group_index)','i < shape.OutlineCount(0)'),
('md-valid','R04',M,'''      return absl::InvalidArgumentError(absl::StrCat(
          "`SkMesh::MakeIndex()`''','''      if (&partition == &partitions.front()) return absl::InvalidArgumentError(absl::StrCat(
          "`SkMesh::MakeIndex()`'''),
('md-count','R04',M,'partition.index_count,','partition.index_count - partition.index_count % 6,'),
('md-start','R04',M,'''starting_uniforms.has_value()
                                     ? *std::move(starting_uniforms)
                                     : MeshUniformData(*specification)''','''MeshUniformData(*specification)'''),
]
