G='ink/geometry/'; MM=G+'mutable_mesh.cc'; MP=G+'internal/mesh_packing.cc'; ME=G+'mesh.cc'; MF=G+'mesh_format.cc'; PM=G+'partitioned_mesh.cc'
B=[
('mf-equiv-id','M01',MF,'''    if (first_attributes[i].id != second_attributes[i].id ||
        ComponentCount(''','''    if (ComponentCount('''),
('mf-remove-dup','M01',MF,'if (not_yet_removed.erase(attribute.id)) {','if (not_yet_removed.contains(attribute.id)) {'),
('mf-remove-index','M01',MF,'return MeshFormat::Create(new_attributes, GetIndexFormat());','return MeshFormat::Create(new_attributes, IndexFormat::k32BitUnpacked16BitPacked);'),
('mf-bits','M02',MF,'return SmallArray<uint8_t, 4>({12, 20});','return SmallArray<uint8_t, 4>({16, 16});'),
('mf-eq','M01',MF,'''         a.GetIndexFormat() == b.GetIndexFormat();''','''         a.UnpackedVertexStride() == b.UnpackedVertexStride();'''),
('pk-xyz','M02',MP,'((packed1 & 0x0F) << 4) + (packed2 >> 6)','((packed1 & 0x0F) << 4) + ((packed2 >> 6) & 0x7)'),
('pk-3in2','M02',MP,'static_cast<float>((packed1 & 0x000000FF) << 16 | packed2)','static_cast<float>((packed1 & 0x0000007F) << 16 | packed2)'),
('pk-round','M02',MP,'  return std::round((value - packing_params.offset) / packing_params.scale);','  return std::floor((value - packing_params.offset) / packing_params.scale);'),
('pk-4in3','M02',MP,'(packed2 & 0x0000003F) << 18 | packed3','(packed2 & 0x0000003F) << 18 | (packed3 & 0x1FFFF)'),
('cp-range','M03',MP,'range > 0 ? std::max(range / max_values[i],','range > 0 ? std::max(range / (max_values[i] + 1),'),
('cp-size','M03',MP,'''      if (!UnpackedFloatValuesAreRepresentable(type, params,
                                               bounds[i].minimum) ||
          !''','''      if (!'''),
('cp-valid','M03',MP,'std::isfinite(c.offset) && std::isfinite(c.scale) && c.scale > 0','std::isfinite(c.offset) && c.scale > 0'),
('cp-min','M03',MP,'''if (packed < 0 || packed > max_values[i]) return false;''','''if (packed < -1 || packed > max_values[i]) return false;'''),
('me-fin-last','M04',ME,'''  for (size_t i = 0; i < vertex_attributes.size(); ++i) {
    if (!absl::c_all_of''','''  for (size_t i = 0; i + 1 < vertex_attributes.size(); ++i) {
    if (!absl::c_all_of'''),
('me-idx-le','M04',ME,'[n_vertices](uint32_t i) { return i < n_vertices; }','[n_vertices](uint32_t i) { return i <= n_vertices; }'),
('me-len','M04',ME,'if (vertex_attributes[i].size() != n_vertices) {','if (vertex_attributes[i].size() < n_vertices) {'),
('me-mod3','M04',ME,'if (triangle_indices.size() % 3 != 0) {','if (triangle_indices.size() % 3 == 1) {'),
('pt-limit','M05',MP,'''        max_vertices_per_partition - 3) {''','''        max_vertices_per_partition - 2) {'''),
('pt-clear','M05',MP,'        mesh_idx_to_partition_idx.clear();\n','        if (n_new_vertices < 3) mesh_idx_to_partition_idx.clear();\n'),
('pt-new','M05',MP,'''      if (partitions.back().vertex_indices.size() + n_new_vertices >
          max_vertices_per_partition) {''','''      if (partitions.back().vertex_indices.size() + n_new_vertices >
          max_vertices_per_partition + 1) {'''),
('fm-idx','M07',MM,'3 * Mesh::kBytesPerIndex * mesh.TriangleCount());','Mesh::kBytesPerIndex * mesh.TriangleCount());'),
('vt-distinct','M07',MM,'''    if (indices[0] == indices[1] || indices[0] == indices[2] ||
        indices[1] == indices[2])''','''    if (indices[0] == indices[1] ||
        indices[1] == indices[2])'''),
('vt-index2','M07',MM,'''    if (indices[0] >= n_vertices || indices[1] >= n_vertices ||
        indices[2] >= n_vertices)''','''    if (indices[0] >= n_vertices || indices[1] >= n_vertices ||
        indices[2] > n_vertices)'''),
('tb-join','M10',MM,'current.maximum[i] = std::max(current.maximum[i], to_add.maximum[i]);','current.maximum[i] = std::max(current.maximum[i], to_add.minimum[i]);'),
('bd-omit','M07',MM,'''    if (omit_set.contains(attribute.id)) continue;
    int n_components''','''    if (omit_set.contains(attribute.id)) { ++new_attr_idx; continue; }
    int n_components'''),
('am-finite-omit','M07',MM,'      if (omit_set.contains(format_.Attributes()[attr_idx].id)) continue;\n',''),
('nudge-bounds','M07',MM,'''  if (!data.quantization_bounds.Contains(*Envelope(nudged_triangle).AsRect())) {''','''  if (false) {'''),
('nudge-already','M07',MM,'if (nudge_bitmask & already_corrected_bitmask) {','if ((nudge_bitmask & already_corrected_bitmask) == already_corrected_bitmask && already_corrected_bitmask) {'),
('nudge-y2','M07',MM,'constexpr uint16_t kNudgeY2Bitmask = 0b000001;','constexpr uint16_t kNudgeY2Bitmask = 0b000010;'),
('nudge-rec','M07',MM,'''  if (candidate.bitmask & kNudgeVertexBitmasks[1]) {
    record_vertex(indices[1], nudged_triangle.p1);''','''  if (candidate.bitmask & kNudgeVertexBitmasks[1]) {
    record_vertex(indices[1], quantized_triangle.p1);'''),
('nudge-adj','M07',MM,'candidate.newly_flipped_adjacent_tris.insert(adj_tri_idx);','candidate.newly_fixed_adjacent_tris.insert(adj_tri_idx);'),
('nudge-queue','M07',MM,'''    absl::c_copy(newly_flipped_tris,
                 std::back_inserter(data.flipped_tri_queue));''','''    data.flipped_tri_queue.push_back(newly_flipped_tris.front());'''),
('nudge-neg','M07',MM,'''    if (mesh.GetTriangle(tri_idx).SignedArea() < 0) {
      return {};
    }''','''    if (mesh.GetTriangle(tri_idx).SignedArea() < 0) {
      break;
    }'''),
('pm-outline-mesh','M08',PM,'if (group.outlines[o_idx][v_idx].mesh_index >= group.meshes.size()) {','if (group.outlines[o_idx][v_idx].mesh_index >= total_meshes) {'),
('pm-format','M08',PM,'if (group.meshes[i].Format() != format) {','if (!MeshFormat::IsPackedEquivalent(group.meshes[i].Format(), format)) {'),
('pm-first-outline','M08',PM,'uint32_t group_first_outline_index = data->outlines_.size();','uint32_t group_first_outline_index = data->group_first_outline_indices_.size();'),
('pm-empty-outline','M08',PM,'if (outline_index_pairs.empty()) group_partitioned_outlines.pop_back();',''),
('pm-part-map','M10',PM,'{.mesh_index = static_cast<uint16_t>(p_idx),','{.mesh_index = static_cast<uint16_t>(0),'),
('pk-override','M07',MP,'return {override_it->second.x, override_it->second.y};','return {override_it->second.x, override_it->second.x};'),
('wr-16','M06',MP,'std::memcpy(&index_data[offset], indices16.data(), 3 * sizeof(uint16_t));','std::memcpy(&index_data[offset], indices16.data(), 2 * sizeof(uint16_t));'),
]
