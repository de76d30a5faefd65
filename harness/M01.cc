// SRC: ink/geometry/mesh_format.cc
// OPT: budget=60
// BOUND: attribute lists of length 0..3 with arbitrary type and id bytes (thorough: 4), lengths 16 and 17 with one arbitrary entry; removal lists of length 0..2
// ASSUME: flat_hash_set is replaced by a list-based set (shim); error texts are not modelled
#include <vector>

#include "ink/geometry/mesh_format.h"
#include "vp.h"
using ink::MeshFormat; typedef MeshFormat::AttributeType T; typedef MeshFormat::AttributeId Id;
static const int kComp[14] = {1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4};
static const int kPacked[14] = {4, 1, 8, 4, 3, 4, 12, 4, 8, 4, 16, 4, 8, 12};
static void Layout(const MeshFormat& f, const std::vector<std::pair<T, Id>>& v, MeshFormat::IndexFormat ix) {
  auto a = f.Attributes(); __vp_assert(a.size() == v.size(), "attribute count"); int pk = 0, un = 0; bool ok = true;
  for (size_t i = 0; i < v.size(); i++) {
    ok = ok & (a[i].type == v[i].first) & (a[i].id == v[i].second) & (a[i].packed_offset == pk) & (a[i].unpacked_offset == un) & (a[i].packed_width == kPacked[(int)v[i].first]) & (a[i].unpacked_width == 4 * kComp[(int)v[i].first]);
    pk += a[i].packed_width; un += a[i].unpacked_width; if (v[i].second == Id::kPosition) __vp_assert(f.PositionAttributeIndex() == i, "position index"); }
  __vp_assert(ok, "types, ids, offsets and widths tile the vertex"); __vp_assert(f.PackedVertexStride() == pk && f.UnpackedVertexStride() == un, "strides are the totals");
  __vp_assert(f.GetIndexFormat() == ix && f.UnpackedIndexStride() == (ix == MeshFormat::IndexFormat::k16BitUnpacked16BitPacked ? 2 : 4), "index format");
}
template <int N> static void Create() {
  static const char* nt[] = {"t0", "t1", "t2", "t3"}; static const char* ni[] = {"i0", "i1", "i2", "i3"}; std::vector<std::pair<T, Id>> v; bool valid = true; int pos = 0; bool pos2 = false;
  for (int i = 0; i < N; i++) { uint8_t t = __vp_u8(nt[i]), d = __vp_u8(ni[i]); valid = valid & (t < 14) & (d < 19); for (auto& x : v) valid = valid & ((uint8_t)x.second != d); v.push_back({(T)t, (Id)d}); pos += d == 0; pos2 = pos2 | ((d == 0) & (t >= 2) & (t <= 5)); }
  auto ix = __vp_bool("ix") ? MeshFormat::IndexFormat::k16BitUnpacked16BitPacked : MeshFormat::IndexFormat::k32BitUnpacked16BitPacked;
  absl::StatusOr<MeshFormat> f = MeshFormat::Create(v, ix); bool want = valid & (pos == 1) & pos2;
  __vp_assert(f.ok() == want, "accepted exactly when valid"); if (f.ok()) { __vp_reach("ok"); Layout(*f, v, ix); } else __vp_reach("error");
}
VP_ENTRY(m01_default) { MeshFormat f; Layout(f, {{T::kFloat2Unpacked, Id::kPosition}}, f.GetIndexFormat()); __vp_assert(!MeshFormat::Create({}, f.GetIndexFormat()).ok(), "no attributes"); __vp_reach("end"); }
VP_ENTRY(m01_one) { Create<1>(); }
VP_ENTRY(m01_two) { Create<2>(); }
VP_ENTRY(m01_three) { Create<3>(); }
VP_ENTRY_T(m01_four) { Create<4>(); }
VP_ENTRY(m01_sixteen) {
  std::vector<std::pair<T, Id>> v; for (int i = 0; i < 16; i++) v.push_back({(T)(i == 0 ? 2 : (i * 5) % 14), (Id)i}); int k = __vp_concretize(__vp_range("k", 0, 15)); uint8_t t = __vp_u8("t"), d = __vp_u8("d"); v[k] = {(T)t, (Id)d};
  auto ix = MeshFormat::IndexFormat::k32BitUnpacked16BitPacked; auto f = MeshFormat::Create(v, ix); bool want = (t < 14) & (d < 19) & ((d >= 16) | (d == k)) & ((k != 0) | ((d == 0) & (t >= 2) & (t <= 5)));
  __vp_assert(f.ok() == want, "sixteen attributes are allowed"); if (f.ok()) { Layout(*f, v, ix); __vp_reach("ok"); }
  v.push_back({T::kFloat1Unpacked, (Id)(d == 16 ? 17 : 16)}); __vp_assert(!MeshFormat::Create(v, ix).ok(), "seventeen are not"); __vp_reach("end");
}
VP_ENTRY(m01_types) {
  uint8_t t = __vp_concretize(__vp_range("t", 0, 13)); T ty = (T)t; __vp_assert(MeshFormat::ComponentCount(ty) == kComp[t] && MeshFormat::PackedAttributeSize(ty) == kPacked[t] && MeshFormat::UnpackedAttributeSize(ty) == 4 * kComp[t], "sizes");
  auto b = MeshFormat::PackedBitsPerComponent(ty); bool un = t == 0 || t == 2 || t == 6 || t == 10; __vp_assert(b.has_value() != un && MeshFormat::IsUnpackedType(ty) == un, "unpacked types have no bit counts");
  if (b) { __vp_assert(b->Size() == kComp[t], "one bit count per component"); int bits = 0; for (uint8_t x : b->Values()) { __vp_assert(x > 0, "positive"); bits += x; }
    bool fl = MeshFormat::IsPackedAsFloat(ty); __vp_assert(fl ? bits <= 24 * kPacked[t] / 4 && kPacked[t] % 4 == 0 : bits <= 8 * kPacked[t], "components fit the packed width"); }
  __vp_reach("end");
}
VP_ENTRY(m01_without) {
  std::vector<std::pair<T, Id>> v{{T::kFloat1Unpacked, Id::kOpacityShift}, {T::kFloat2PackedIn1Float, Id::kPosition}, {T::kFloat3PackedIn4UnsignedBytes_XYZ10, Id::kColorShiftHsl}, {T::kFloat4PackedIn3Floats, Id::kCustom9}};
  auto ix = MeshFormat::IndexFormat::k16BitUnpacked16BitPacked; MeshFormat f = *MeshFormat::Create(v, ix); int n = __vp_concretize(__vp_range("n", 0, 2)); std::vector<Id> rm; static const char* nm[] = {"r0", "r1"};
  bool want = true; for (int i = 0; i < n; i++) { uint8_t d = __vp_u8(nm[i]); rm.push_back((Id)d); want = want & ((d == 2) | (d == 1) | (d == 18)); }
  auto g = f.WithoutAttributes(rm); __vp_assert(g.ok() == want, "removal succeeds exactly for present non-position attributes");
  if (g.ok()) { std::vector<std::pair<T, Id>> w; for (auto& x : v) { bool gone = false; for (Id r : rm) if (r == x.second) gone = true; if (!gone) w.push_back(x); } Layout(*g, w, ix); __vp_reach("ok"); } else __vp_reach("error");
}
VP_ENTRY(m01_equality) {
  std::vector<std::pair<T, Id>> v{{(T)__vp_u8("t0"), Id::kPosition}, {(T)__vp_u8("t1"), (Id)__vp_u8("i1")}}, w{{(T)__vp_u8("u0"), Id::kPosition}, {(T)__vp_u8("u1"), (Id)__vp_u8("j1")}};
  auto ix = (MeshFormat::IndexFormat)__vp_concretize(__vp_range("x", 0, 1)), iy = (MeshFormat::IndexFormat)__vp_concretize(__vp_range("y", 0, 1)); auto f = MeshFormat::Create(v, ix), g = MeshFormat::Create(w, iy); if (!f.ok() || !g.ok()) { __vp_reach("error"); return; }
  bool types = (v[0].first == w[0].first) & (v[1].first == w[1].first), ids = v[1].second == w[1].second;
  __vp_assert((*f == *g) == (types & ids & (ix == iy)), "equality"); __vp_assert((*f != *g) == !(*f == *g), "inequality"); __vp_assert(MeshFormat::IsPackedEquivalent(*f, *g) == (types & ids), "packed equivalence ignores the index format");
  __vp_assert(MeshFormat::IsUnpackedEquivalent(*f, *g) == ((MeshFormat::ComponentCount(v[1].first) == MeshFormat::ComponentCount(w[1].first)) & ids), "unpacked equivalence compares components and ids"); __vp_reach("ok");
}
