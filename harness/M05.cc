// SRC: ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc
// OPT: budget=120
// BOUND: 2 triangles with arbitrary 32-bit (or 16-bit) vertex indices and vertex limits 3..6
// BOUND: 3 and 4 triangles of which one has arbitrary indices, limits 3..7; 0 triangles; index byte arrays of 3 triangles
// ASSUME: flat_hash_map is replaced by a list-based map (shim)
#include <vector>

#include "ink/geometry/internal/mesh_packing.h"
#include "vp.h"
using namespace ink; using namespace ink::mesh_internal;
static const char* in[12] = {"a0", "a1", "a2", "b0", "b1", "b2", "c0", "c1", "c2", "d0", "d1", "d2"};
static std::vector<std::byte> Bytes(const std::vector<uint32_t>& ix, int stride) { std::vector<std::byte> d(ix.size() * stride); for (size_t t = 0; t < ix.size() / 3; t++) WriteTriangleIndicesToByteArray(t, stride, absl::MakeConstSpan(&ix[3 * t], 3), d); return d; }
static void Partition(const std::vector<uint32_t>& ix, int stride, unsigned max) {
  auto p = PartitionTriangles(Bytes(ix, stride), stride == 2 ? MeshFormat::IndexFormat::k16BitUnpacked16BitPacked : MeshFormat::IndexFormat::k32BitUnpacked16BitPacked, max); size_t t = 0; __vp_assert(p.size() >= 1, "at least one partition");
  for (size_t k = 0; k < p.size(); k++) {
    auto& q = p[k]; size_t nv = q.vertex_indices.size(); __vp_assert(nv <= max, "vertex limit"); bool distinct = true; std::vector<bool> used(nv, false); for (size_t i = 0; i < nv; i++) for (size_t j = 0; j < i; j++) distinct = distinct & (q.vertex_indices[i] != q.vertex_indices[j]); __vp_assert(distinct, "no vertex is stored twice");
    if (k > 0) __vp_assert(!q.triangles.empty(), "no empty partition");
    if (k > 0) { unsigned extra = 0; auto& o = p[k - 1].vertex_indices; for (int i = 0; i < 3; i++) { bool have = false; for (uint32_t v : o) have = have | (v == ix[3 * t + i]); extra += !have; } __vp_assert(o.size() + extra > max, "a partition is only closed when the next triangle does not fit"); }
    for (auto& tri : q.triangles) { __vp_assert(3 * t < ix.size(), "no extra triangles"); bool ok = true; for (int i = 0; i < 3; i++) { __vp_assert(tri[i] < nv, "local index in range"); ok = ok & (q.vertex_indices[tri[i]] == ix[3 * t + i]); used[tri[i]] = true; } __vp_assert(ok, "local indices map back, in the original order"); t++; }
    for (size_t i = 0; i < nv; i++) __vp_assert(used[i], "only referenced vertices are kept");
  }
  __vp_assert(3 * t == ix.size(), "every triangle is in exactly one partition");
}
static uint32_t Ix(const char* n, int stride) { return stride == 2 ? __vp_u16(n) : __vp_u32(n); }
static void Two(unsigned max, int stride) { std::vector<uint32_t> ix; for (int i = 0; i < 6; i++) ix.push_back(Ix(in[i], stride)); Partition(ix, stride, max); __vp_reach("end"); }
VP_ENTRY(m05_two_max3) { Two(3, 4); }
VP_ENTRY(m05_two_max4) { Two(4, 2); }
VP_ENTRY(m05_two_max5) { Two(5, 4); }
VP_ENTRY(m05_two_max6) { Two(6, 2); }
VP_ENTRY(m05_third) { unsigned max = __vp_concretize(__vp_range("max", 3, 6)); std::vector<uint32_t> ix{0, 1, 2, 2, 1, 3}; for (int i = 0; i < 3; i++) ix.push_back(__vp_u32(in[i])); Partition(ix, 4, max); __vp_reach("end"); }
VP_ENTRY(m05_fourth) { unsigned max = __vp_concretize(__vp_range("max", 4, 7)); std::vector<uint32_t> ix{70000, 1, 2, 2, 1, 3, 9, 70000, 5}; for (int i = 0; i < 2; i++) ix.push_back(__vp_u32(in[i])); ix.push_back(3); Partition(ix, 4, max); __vp_reach("end"); }
VP_ENTRY(m05_second_of_four) { unsigned max = __vp_concretize(__vp_range("max", 3, 5)); std::vector<uint32_t> ix{0, 1, 2}; for (int i = 0; i < 2; i++) ix.push_back(__vp_u32(in[i])); for (uint32_t v : {2, 2, 3, 0, 7, 2, 1}) ix.push_back(v); Partition(ix, 4, max); __vp_reach("end"); }
VP_ENTRY(m05_after_disjoint) { unsigned max = __vp_concretize(__vp_range("max", 3, 7)); std::vector<uint32_t> ix{0, 1, 2, 5, 6, 7}; for (int i = 0; i < 3; i++) ix.push_back(__vp_u32(in[i])); Partition(ix, 4, max); __vp_reach("end"); }
VP_ENTRY(m05_fourth_disjoint) { unsigned max = __vp_concretize(__vp_range("max", 3, 8)); std::vector<uint32_t> ix{0, 1, 2, 5, 6, 7, 2, 8, 9}; for (int i = 0; i < 2; i++) ix.push_back(__vp_u32(in[i])); ix.push_back(6); Partition(ix, 4, max); __vp_reach("end"); }
VP_ENTRY(m05_none) { Partition({}, 4, 3); Partition({}, 2, 65536); __vp_reach("end"); }
VP_ENTRY(m05_bytes) {
  int stride = 2 + 2 * __vp_concretize(__vp_range("w", 0, 1)); std::vector<uint32_t> ix; for (int i = 0; i < 9; i++) ix.push_back(Ix(in[i], stride)); auto d = Bytes(ix, stride); __vp_assert(d.size() == 9u * stride, "size"); for (int t = 0; t < 3; t++) { auto a = ReadTriangleIndicesFromByteArray(t, stride, d); __vp_assert(a[0] == ix[3 * t] && a[1] == ix[3 * t + 1] && a[2] == ix[3 * t + 2], "indices read back"); }
  int w = __vp_concretize(__vp_range("k", 0, 2)); std::vector<uint32_t> nw{Ix("n0", stride), Ix("n1", stride), Ix("n2", stride)}; WriteTriangleIndicesToByteArray(w, stride, nw, d); for (int t = 0; t < 3; t++) { auto a = ReadTriangleIndicesFromByteArray(t, stride, d); for (int i = 0; i < 3; i++) __vp_assert(a[i] == (t == w ? nw[i] : ix[3 * t + i]), "only the written triangle changes"); } __vp_reach("end");
}
