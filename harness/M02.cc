// SRC: ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc
// OPT: budget=120
// BOUND: every code of every packed type with offset 0 and scale 1; every stored bit pattern of the byte-packed types and every representable 24-bit float of the float-packed types
// BOUND: quantization error: any value within the range, for offsets a multiple of 1/64 in [-64,64) and scales 1, 1/128, 0.1, 1/3, 37
// ASSUME: error texts are not modelled
#include <cstring>
#include <vector>

#include "ink/geometry/internal/mesh_packing.h"
#include "vp.h"
using namespace ink; using namespace ink::mesh_internal; typedef MeshFormat::AttributeType T;
struct L { int n, bytes, bits[4]; bool fl; };
static const L kL[14] = {{1, 4, {}, 0}, {1, 1, {8}, 0}, {2, 8, {}, 0}, {2, 4, {12, 12}, 1}, {2, 3, {12, 12}, 0}, {2, 4, {12, 20}, 0}, {3, 12, {}, 0}, {3, 4, {8, 8, 8}, 1}, {3, 8, {16, 16, 16}, 1}, {3, 4, {10, 10, 10}, 0}, {4, 16, {}, 0}, {4, 4, {6, 6, 6, 6}, 1}, {4, 8, {12, 12, 12, 12}, 1}, {4, 12, {18, 18, 18, 18}, 1}};
static const char* cn[4] = {"c0", "c1", "c2", "c3"}; static const char* vn[4] = {"v0", "v1", "v2", "v3"}; static const char* bn[4] = {"b0", "b1", "b2", "b3"};
static MeshAttributeCodingParams Unit(int n) { return {.components = SmallArray<MeshAttributeCodingParams::ComponentCodingParams, 4>(n, {.offset = 0, .scale = 1})}; }
// Documented layout: components most significant first, in a big-endian bit string (or one of 24 bits per float).
static void Expect(const L& l, const uint32_t* c, std::byte* out) {
  unsigned __int128 all = 0; int tot = 0; for (int i = 0; i < l.n; i++) { all = (all << l.bits[i]) | c[i]; tot += l.bits[i]; }
  if (l.fl) { for (int f = 0; f < l.bytes / 4; f++) { float v = (float)((uint32_t)(all >> (tot - 24 * (f + 1))) & 0xffffff); std::memcpy(out + 4 * f, &v, 4); } }
  else { all <<= 8 * l.bytes - tot; for (int b = 0; b < l.bytes; b++) out[b] = (std::byte)(uint8_t)(all >> (8 * (l.bytes - 1 - b))); }
}
static void Codes(int t) {
  const L& l = kL[t]; uint32_t c[4]; SmallArray<float, 4> v(l.n); for (int i = 0; i < l.n; i++) { c[i] = __vp_range(cn[i], 0, (1 << l.bits[i]) - 1); v[i] = (float)c[i]; }
  std::byte buf[20], want[16]; uint8_t pre = __vp_u8("pre"); for (auto& b : buf) b = (std::byte)pre; Expect(l, c, want);
  PackAttribute((T)t, Unit(l.n), v, absl::MakeSpan(buf + 2, l.bytes)); bool eq = true; for (int i = 0; i < l.bytes; i++) eq = eq & (buf[2 + i] == want[i]); __vp_assert(eq, "packed bytes follow the documented layout");
  bool nb = true; for (int i = 0; i < 20; i++) if (i < 2 || i >= l.bytes + 2) nb = nb & (buf[i] == (std::byte)pre); __vp_assert(nb, "neighbouring bytes are untouched");
  auto u = UnpackIntegersFromPackedAttribute((T)t, absl::MakeConstSpan(buf + 2, l.bytes)); __vp_assert(u.Size() == l.n, "component count"); bool same = true; for (int i = 0; i < l.n; i++) same = same & (u[i] == c[i]); __vp_assert(same, "codes survive");
  auto f = UnpackAttribute((T)t, Unit(l.n), absl::MakeConstSpan(buf + 2, l.bytes)); __vp_assert(f.Size() == l.n, "component count"); bool fs = true; for (int i = 0; i < l.n; i++) fs = fs & (f[i] == v[i]); __vp_assert(fs, "values survive"); __vp_reach("end");
}
static void Stored(int t) {
  const L& l = kL[t]; std::byte raw[16], back[16]; for (int i = 0; i < l.bytes; i++) back[i] = std::byte{0};
  uint32_t mask = 0xffffffff; if (l.fl) { for (int f = 0; f < l.bytes / 4; f++) { float v = (float)__vp_range(vn[f], 0, (1 << 24) - 1); std::memcpy(raw + 4 * f, &v, 4); } } else for (int i = 0; i < l.bytes; i++) raw[i] = (std::byte)__vp_u8(bn[i]);
  if (t == (int)T::kFloat3PackedIn4UnsignedBytes_XYZ10) mask = 0xfc;  // two padding bits
  auto u = UnpackIntegersFromPackedAttribute((T)t, absl::MakeConstSpan(raw, l.bytes)); bool in = true; for (int i = 0; i < l.n; i++) in = in & (u[i] <= MaxValueForBits(l.bits[i])); __vp_assert(in, "codes stay within their bits");
  auto f = UnpackAttribute((T)t, Unit(l.n), absl::MakeConstSpan(raw, l.bytes)); PackAttribute((T)t, Unit(l.n), f, absl::MakeSpan(back, l.bytes));
  bool eq = true; for (int i = 0; i < l.bytes; i++) eq = eq & (i == l.bytes - 1 && !l.fl ? (((uint8_t)back[i] ^ (uint8_t)raw[i]) & mask) == 0 : back[i] == raw[i]); __vp_assert(eq, "re-packing reproduces the stored bits"); __vp_reach("end");
}
template <int N> static void Exact(T t) {
  SmallArray<float, 4> v(N); for (int i = 0; i < N; i++) { v[i] = __vp_f32(vn[i]); __vp_assume(v[i] - v[i] == 0); } std::byte b[4 * N + 2]; b[0] = b[4 * N + 1] = std::byte{0x5a};
  MeshAttributeCodingParams none; PackAttribute(t, none, v, absl::MakeSpan(b + 1, 4 * N)); __vp_assert(std::memcmp(b + 1, v.Values().data(), 4 * N) == 0, "stored as is"); __vp_assert(b[0] == std::byte{0x5a} && b[4 * N + 1] == std::byte{0x5a}, "neighbouring bytes are untouched");
  auto f = UnpackAttribute(t, none, absl::MakeConstSpan(b + 1, 4 * N)); __vp_assert(f.Size() == N, "count"); __vp_assert(std::memcmp(f.Values().data(), v.Values().data(), 4 * N) == 0, "read back exactly"); __vp_reach("end");
}
VP_ENTRY(m02_unpacked) { switch (__vp_concretize(__vp_range("k", 0, 3))) { case 0: Exact<1>(T::kFloat1Unpacked); break; case 1: Exact<2>(T::kFloat2Unpacked); break; case 2: Exact<3>(T::kFloat3Unpacked); break; default: Exact<4>(T::kFloat4Unpacked); } }
VP_ENTRY(m02_codes_1byte) { Codes(1); }
VP_ENTRY(m02_codes_2in1) { Codes(3); }
VP_ENTRY(m02_codes_xy12) { Codes(4); }
VP_ENTRY(m02_codes_x12y20) { Codes(5); }
VP_ENTRY(m02_codes_3in1) { Codes(7); }
VP_ENTRY(m02_codes_3in2) { Codes(8); }
VP_ENTRY(m02_codes_xyz10) { Codes(9); }
VP_ENTRY(m02_codes_4in1) { Codes(11); }
VP_ENTRY(m02_codes_4in2) { Codes(12); }
VP_ENTRY(m02_codes_4in3) { Codes(13); }
VP_ENTRY(m02_stored_bytes) { static const int k[4] = {1, 4, 5, 9}; Stored(k[__vp_concretize(__vp_range("k", 0, 3))]); }
VP_ENTRY(m02_stored_floats1) { static const int k[3] = {3, 7, 11}; Stored(k[__vp_concretize(__vp_range("k", 0, 2))]); }
VP_ENTRY(m02_stored_floats2) { Stored(8); }
VP_ENTRY(m02_stored_floats3) { Stored(12); }
VP_ENTRY(m02_stored_floats4) { Stored(13); }
static const float kScale[5] = {1, 0.0078125f, 0.1f, 1.f / 3, 37};
static void Error(int bits) {  // the code chosen for a value is within half a quantum of it
  float scale = kScale[__vp_concretize(__vp_range("s", 0, 4))], off = vp::grid("off", -4096, 4095, 6), span = scale * (float)((1 << bits) - 1);
  float v = __vp_f32_range("v", -64, 64 + span); __vp_assume(v >= off); __vp_assume(v - off <= span); uint32_t c = PackSingleFloat({.offset = off, .scale = scale}, v); __vp_assert(c < (1u << bits), "code is within its bits");
  float out = (float)c * scale + off, tol = 0.5f * scale + 4e-7f * (64 + span); __vp_assert(out - v <= tol && v - out <= tol, "reproduced within half a quantum"); __vp_reach("end");
}
VP_ENTRY(m02_error_8) { Error(8); }
VP_ENTRY(m02_error_12) { Error(12); }
VP_ENTRY(m02_error_20) { Error(20); }
VP_ENTRY(m02_affine) {  // unpacking is code * scale + offset and packing inverts it through PackSingleFloat
  static const int ts[10] = {1, 3, 4, 5, 7, 8, 9, 11, 12, 13}; int t = ts[__vp_concretize(__vp_range("t", 0, 9))]; const L& l = kL[t]; uint32_t c[4]; std::byte b[16]; MeshAttributeCodingParams p = Unit(l.n);
  for (int i = 0; i < l.n; i++) { c[i] = __vp_range(cn[i], 0, (1 << l.bits[i]) - 1); p.components[i].scale = __vp_f32_range(vn[i], 1e-6f, 1e6f); p.components[i].offset = __vp_f32_range(bn[i], -1e6f, 1e6f); }
  Expect(l, c, b); auto f = UnpackAttribute((T)t, p, absl::MakeConstSpan(b, l.bytes)); auto u = UnpackIntegersFromPackedAttribute((T)t, absl::MakeConstSpan(b, l.bytes));
  for (int i = 0; i < l.n; i++) __vp_assert(u[i] == c[i] && f[i] == (float)u[i] * p.components[i].scale + p.components[i].offset, "unpacking applies scale and offset per component"); __vp_reach("end");
}
VP_ENTRY(m02_pack_affine) {
  static const int ts[10] = {1, 3, 4, 5, 7, 8, 9, 11, 12, 13}; int t = ts[__vp_concretize(__vp_range("t", 0, 9))]; const L& l = kL[t]; std::byte b[16]; MeshAttributeCodingParams p = Unit(l.n); SmallArray<float, 4> v(l.n);
  for (int i = 0; i < l.n; i++) { p.components[i].scale = 0.25f * (float)(1 << i); p.components[i].offset = (float)(i * 7 - 9); v[i] = __vp_f32_range(vn[i], -9, 40); __vp_assume(v[i] >= p.components[i].offset); __vp_assume(PackSingleFloat(p.components[i], v[i]) <= MaxValueForBits(l.bits[i])); }
  PackAttribute((T)t, p, v, absl::MakeSpan(b, l.bytes)); auto u = UnpackIntegersFromPackedAttribute((T)t, absl::MakeConstSpan(b, l.bytes)); for (int i = 0; i < l.n; i++) __vp_assert(u[i] == PackSingleFloat(p.components[i], v[i]), "each component is packed with its own parameters"); __vp_reach("end");
}
