// SRC: ink/strokes/internal/stroke_vertex.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/internal/algorithms.cc ink/geometry/mesh_format.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// OPT: budget=120
// BOUND: every encoded label, every margin (any float but NaN), every attribute bit pattern (NaN excluded) of a mesh of 3 vertices, all orders and omissions of the 8 stroke attributes with up to 3 present (plus the full format)
// BOUND: interpolation with ratios and attributes on a grid, all label combinations
#include <cmath>
#include <cstring>
#include <vector>

#include "ink/geometry/internal/algorithms.h"
#include "ink/geometry/internal/mesh_packing.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "vp.h"
using namespace ink; using namespace ink::mesh_internal; using strokes_internal::StrokeVertex; typedef MeshFormat::AttributeType T; typedef MeshFormat::AttributeId Id; typedef StrokeVertex::Label Label; typedef StrokeVertex::NonPositionAttributes Attr;
static float Any(const char* n) { float f = __vp_f32(n); __vp_assume(f == f); return f; }
static int Sgn(float x) { return (x > 0) - (x < 0); }
// ---- labels
VP_ENTRY(k03_category) {
  Label l{Any("e")}; int s = Sgn(l.encoded_value); __vp_assert(l.DecodeSideCategory() == (s < 0 ? StrokeVertex::SideCategory::kExteriorLeft : s > 0 ? StrokeVertex::SideCategory::kExteriorRight : StrokeVertex::SideCategory::kInterior), "side category"); __vp_assert(l.DecodeForwardCategory() == (s < 0 ? StrokeVertex::ForwardCategory::kExteriorFront : s > 0 ? StrokeVertex::ForwardCategory::kExteriorBack : StrokeVertex::ForwardCategory::kInterior), "forward category"); __vp_assert(l.DerivativeOutsetSign() == s, "outset sign");
  __vp_reach("end");
}
VP_ENTRY(k03_margin) {
  Label l{(float)__vp_range("l", -127, 127)}; float m = Any("m"); Label n = l.WithMargin(m); if (l.encoded_value == 0) { __vp_assert(n.encoded_value == 0 && n.DecodeMargin() == 0, "interior labels have no margin"); return; }
  float a = std::fabs(n.encoded_value); __vp_assert((Sgn(n.encoded_value) == Sgn(l.encoded_value)) & (a >= 1) & (a <= 127), "the category is kept and the value fits a byte"); float f = a == 1 ? 0 : a; __vp_assert(std::floor(a) == a, "encoded values are integers");
  __vp_assert((m > 0) | (a == 1), "no margin below zero"); __vp_assert((m < 4) | (a == 127), "full margin from the maximum on"); (void)f; __vp_reach("end");
}
VP_ENTRY(k03_margin_decode) {
  Label l{(float)__vp_range("l", -127, 127)}; float d = l.DecodeMargin(), a = std::fabs(l.encoded_value); __vp_assert((d >= 0) & (d <= 4), "margins lie in range"); __vp_assert((a > 1) | (d == 0), "smallest margin"); __vp_assert((a != 127) | (d == 4), "largest margin"); float e = a < 1 ? 0 : (a - 1) * (4.f / 126), x = d - e; __vp_assert((x < 1e-5f) & (x > -1e-5f), "margins are spread evenly"); __vp_reach("end");
}
VP_ENTRY(k03_margin_loss) { // what is decoded is at most one step below what was given
  float m = vp::grid("m", 0, 1023, 8), d = Label{1}.WithMargin(m).DecodeMargin(); __vp_assert((d <= m + 1e-6f) & (d > m - 4.f / 126 - 1e-6f), "margins round down by less than one step"); float g = vp::grid("g", 0, 1023, 8); float e = Label{-1}.WithMargin(g).DecodeMargin(); __vp_assert((g < m) | (e >= d), "margins keep their order"); __vp_reach("end");
}
VP_ENTRY(k03_constants) {
  __vp_assert(StrokeVertex::kInteriorLabel.encoded_value == 0, "interior"); __vp_assert(StrokeVertex::kExteriorLeftLabel.DecodeSideCategory() == StrokeVertex::SideCategory::kExteriorLeft && StrokeVertex::kExteriorRightLabel.DecodeSideCategory() == StrokeVertex::SideCategory::kExteriorRight && StrokeVertex::kExteriorFrontLabel.DecodeForwardCategory() == StrokeVertex::ForwardCategory::kExteriorFront && StrokeVertex::kExteriorBackLabel.DecodeForwardCategory() == StrokeVertex::ForwardCategory::kExteriorBack, "labels name their category");
  for (Label l : {StrokeVertex::kExteriorLeftLabel, StrokeVertex::kExteriorRightLabel}) __vp_assert(l == l.WithMargin(100) && l.DecodeMargin() == 4, "largest margin"); __vp_reach("end");
}
// ---- packing
static MeshAttributeCodingParams ParamsOf(int i) { auto a = StrokeVertex::MakeCustomPackingArray(StrokeVertex::FullMeshFormat()); __vp_assert(a.Size() == 8 && a[i].has_value(), "custom parameters"); return *a[i]; }
VP_ENTRY(k03_pack_label) { // the encoded label survives packing
  int i = __vp_concretize(__vp_range("i", 0, 1)) ? 4 : 6; float v = __vp_range("v", -127, 127); std::byte b[1]; PackAttribute(T::kFloat1PackedIn1UnsignedByte, ParamsOf(i), SmallArray<float, 4>({v}), absl::MakeSpan(b, 1)); auto u = UnpackAttribute(T::kFloat1PackedIn1UnsignedByte, ParamsOf(i), absl::MakeConstSpan(b, 1)); __vp_assert(u.Size() == 1 && u[0] == v, "labels survive packing"); __vp_assert((int)(uint8_t)b[0] == (int)v + 128, "labels are stored with an offset of 128"); __vp_reach("end");
}
VP_ENTRY(k03_pack_shift) { // -1, 0 and 1 survive packing exactly and everything else within half a step
  float o = vp::grid("o", -256, 256, 8); std::byte b[4]; auto p = ParamsOf(1); PackAttribute(T::kFloat1PackedIn1UnsignedByte, p, SmallArray<float, 4>({o}), absl::MakeSpan(b, 1)); float u = UnpackAttribute(T::kFloat1PackedIn1UnsignedByte, p, absl::MakeConstSpan(b, 1))[0]; float e = u - o; __vp_assert((e <= 1.001f / 254) & (e >= -1.001f / 254), "opacity within half a step"); __vp_assert(((o != 0) & (o != 1) & (o != -1)) | (u == o), "opacity -1, 0 and 1 are exact");
  auto q = ParamsOf(2); int k = __vp_concretize(__vp_range("k", 0, 2)); SmallArray<float, 4> h({0.f, 0.f, 0.f}); h[k] = o; PackAttribute(T::kFloat3PackedIn4UnsignedBytes_XYZ10, q, h, absl::MakeSpan(b, 4)); auto r = UnpackAttribute(T::kFloat3PackedIn4UnsignedBytes_XYZ10, q, absl::MakeConstSpan(b, 4)); for (int j = 0; j < 3; ++j) if (j != k) __vp_assert(r[j] == 0, "other components stay zero"); float x = r[k] - o; __vp_assert((x <= 1.001f / 1022) & (x >= -1.001f / 1022), "color shift within half a step"); __vp_assert(((o != 0) & (o != 1) & (o != -1)) | (r[k] == o), "color shift -1, 0 and 1 are exact"); __vp_reach("end");
}
static const Id kIds[10] = {Id::kPosition, Id::kOpacityShift, Id::kColorShiftHsl, Id::kSideDerivative, Id::kSideLabel, Id::kForwardDerivative, Id::kForwardLabel, Id::kSurfaceUv, Id::kCustom1, Id::kCustom3};
VP_ENTRY(k03_format_indices) { // every attribute is found where it is and nowhere else
  int ids[3], n = __vp_concretize(__vp_range("n", 1, 3)); std::vector<std::pair<T, Id>> as; static const char* nm[3] = {"a", "b", "c"}; for (int i = 0; i < n; ++i) { ids[i] = __vp_concretize(__vp_range(nm[i], 0, 9)); as.push_back({T::kFloat2Unpacked, kIds[ids[i]]}); }
  auto f = MeshFormat::Create(as, MeshFormat::IndexFormat::k16BitUnpacked16BitPacked); if (!f.ok()) return; auto x = StrokeVertex::FindAttributeIndices(*f); int8_t got[8] = {x.position, x.opacity_shift, x.hsl_shift, x.side_derivative, x.side_label, x.forward_derivative, x.forward_label, x.surface_uv};
  for (int k = 0; k < 8; ++k) { int want = -1; for (int i = 0; i < n; ++i) if (ids[i] == k) want = i; __vp_assert(got[k] == want, "attribute index"); } __vp_reach("end");
}
static const T kTypes[5] = {T::kFloat1PackedIn1UnsignedByte, T::kFloat3PackedIn4UnsignedBytes_XYZ10, T::kFloat2PackedIn4UnsignedBytes_X12_Y20, T::kFloat1Unpacked, T::kFloat2PackedIn1Float};
VP_ENTRY(k03_custom_params) { // exactly the shift, label and texture attributes with their packed type get fixed parameters, in order, skipped ids left out
  int id = __vp_concretize(__vp_range("id", 1, 9)), ty = __vp_concretize(__vp_range("ty", 0, 4)); unsigned skip = __vp_concretize(__vp_range("skip", 0, 7)); auto f = MeshFormat::Create({{kTypes[ty], kIds[id]}, {T::kFloat2Unpacked, Id::kPosition}, {T::kFloat1PackedIn1UnsignedByte, Id::kCustom5}}, MeshFormat::IndexFormat::k16BitUnpacked16BitPacked); __vp_assert(f.ok() || id == 1 || id == 2 || id >= 3, "format"); if (!f.ok()) return; std::vector<Id> s; if (skip & 1) s.push_back(kIds[id]); if (skip & 2) s.push_back(Id::kCustom5); if (skip & 4) s.push_back(Id::kCustom9);
  auto a = StrokeVertex::MakeCustomPackingArray(*f, s); __vp_assert((int)a.Size() == 3 - (skip & 1) - (skip >> 1 & 1), "one entry per kept attribute"); bool fixed = (ty == 0 && (id == 1 || id == 4 || id == 6)) || (ty == 1 && id == 2) || (ty == 2 && id == 7); int pos = skip & 1 ? 0 : 1; for (int i = 0; i < (int)a.Size(); ++i) __vp_assert(a[i].has_value() == (i < pos && fixed), "fixed parameters exactly for recognised packed attributes");
  if (!(skip & 1) && fixed) { auto want = ParamsOf(id); __vp_assert(a[0]->components.Size() == want.components.Size(), "components"); for (int i = 0; i < want.components.Size(); ++i) __vp_assert(a[0]->components[i].offset == want.components[i].offset && a[0]->components[i].scale == want.components[i].scale, "the same parameters whatever the format"); } __vp_reach("end");
}
// ---- mesh accessors
struct Flat { float v[17]; };  // position, opacity, hsl, side derivative, label, forward derivative, label, uv
static const char* fn[17] = {"px", "py", "o", "h0", "h1", "h2", "sx", "sy", "sl", "fx", "fy", "fl", "u", "v"};
static StrokeVertex Make(const float* f) { StrokeVertex s; s.position = {f[0], f[1]}; auto& a = s.non_position_attributes; a.opacity_shift = f[2]; a.hsl_shift = {f[3], f[4], f[5]}; a.side_derivative = {f[6], f[7]}; a.side_label = {f[8]}; a.forward_derivative = {f[9], f[10]}; a.forward_label = {f[11]}; a.surface_uv = {f[12], f[13]}; return s; }
static void Read(const MutableMesh& m, uint32_t i, float* o) { Point p = m.VertexPosition(i); o[0] = p.x; o[1] = p.y; int k = 2; static const int n[8] = {2, 1, 3, 2, 1, 2, 1, 2}; for (int a = 1; a < 8; ++a) { auto x = m.FloatVertexAttribute(i, a); for (int j = 0; j < n[a]; ++j) o[k++] = x[j]; } }
static float Cl(float x) { return x < -1 ? -1 : x > 1 ? 1 : x; }
static void Check(const MutableMesh& m, const float (*want)[14]) { for (uint32_t i = 0; i < m.VertexCount(); ++i) { float g[14]; Read(m, i, g); bool ok = true; for (int k = 0; k < 14; ++k) ok = ok & (g[k] == want[i][k]); __vp_assert(ok, "vertices hold exactly what was written"); StrokeVertex v = StrokeVertex::GetFromMesh(m, i), w = Make(want[i]); __vp_assert((v.position == w.position) & (v.non_position_attributes == w.non_position_attributes), "whole vertices are read back"); } }
VP_ENTRY(k03_accessors) {
  MutableMesh m(StrokeVertex::FullMeshFormat()); float want[3][14]; for (int i = 0; i < 3; ++i) { for (int k = 0; k < 14; ++k) want[i][k] = (k >= 2 && k < 6) ? 0.125f * (k + i) : 16 * i + k; StrokeVertex::AppendToMesh(m, Make(want[i])); } __vp_assert(m.VertexCount() == 3, "appended"); Check(m, want);
  int i = __vp_concretize(__vp_range("i", 0, 2)), op = __vp_concretize(__vp_range("op", 0, 6)); float a = Any("a"), b = Any("b");
  switch (op) {
    case 0: StrokeVertex::SetSideDerivativeInMesh(m, i, {a, b}); want[i][6] = a; want[i][7] = b; break;
    case 1: StrokeVertex::SetForwardDerivativeInMesh(m, i, {a, b}); want[i][9] = a; want[i][10] = b; break;
    case 2: StrokeVertex::SetSideLabelInMesh(m, i, {a}); want[i][8] = a; break;
    case 3: StrokeVertex::SetForwardLabelInMesh(m, i, {a}); want[i][11] = a; break;
    case 4: StrokeVertex::SetSurfaceUvInMesh(m, i, {a, b}); want[i][12] = a; want[i][13] = b; break;
    default: { float f[14]; for (int k = 0; k < 14; ++k) f[k] = Any(fn[k]); if (op == 5) { StrokeVertex::SetInMesh(m, i, Make(f)); for (int k = 0; k < 14; ++k) want[i][k] = k >= 2 && k < 6 ? Cl(f[k]) : f[k]; } else { StrokeVertex::AppendToMesh(m, Make(f)); __vp_assert(m.VertexCount() == 4, "appended"); float g[14]; Read(m, 3, g); bool ok = true; for (int k = 0; k < 14; ++k) ok = ok & (g[k] == (k >= 2 && k < 6 ? Cl(f[k]) : f[k])); __vp_assert(ok, "appended vertex, shifts limited to -1 and 1"); m.Resize(3, 0); } }
  }
  Check(m, want); Vec sd = StrokeVertex::GetSideDerivativeFromMesh(m, i), fd = StrokeVertex::GetForwardDerivativeFromMesh(m, i); Point uv = StrokeVertex::GetSurfaceUvFromMesh(m, i); const float* w = want[i]; __vp_assert((sd.x == w[6]) & (sd.y == w[7]) & (fd.x == w[9]) & (fd.y == w[10]) & (uv.x == w[12]) & (uv.y == w[13]) & (StrokeVertex::GetSideLabelFromMesh(m, i).encoded_value == w[8]) & (StrokeVertex::GetForwardLabelFromMesh(m, i).encoded_value == w[11]), "single attributes are read back"); __vp_reach("end");
}
// ---- interpolation
static const float kL[5] = {-127, -3, 0, 1, 127};
static Attr A(int i, int label, int label2) { Attr a; a.opacity_shift = 0.25f * i - 0.5f; a.hsl_shift = {0.5f * i, -0.25f * i, 1.f - i}; a.side_derivative = {1, 2}; a.forward_derivative = {3, 4}; a.side_label = {kL[label]}; a.forward_label = {kL[label2]}; a.surface_uv = {(float)i, 1.f - i * i}; return a; }
static int L(const char* n) { return __vp_concretize(__vp_range(n, 0, 4)); }
static float FullOf(float l) { return 127.f * Sgn(l); }
static float Want(float a, float b, float t) { return a == b || t <= 0 ? a : t >= 1 ? b : 0; }
VP_ENTRY(k03_lerp) {
  int la = L("la"), lb = L("lb"); Attr a = A(0, la, lb), b = A(1, lb, lb); float t = vp::grid("t", -64, 128, 5); Attr r = Lerp(a, b, t);
  __vp_assert(r.side_derivative == Vec{0, 0} && r.forward_derivative == Vec{0, 0}, "derivatives are cleared"); __vp_assert(r.side_label.encoded_value == Want(FullOf(kL[la]), FullOf(kL[lb]), t), "side label"); __vp_assert(r.forward_label.encoded_value == FullOf(kL[lb]), "forward label");
  __vp_assert((r.opacity_shift == geometry_internal::Lerp(a.opacity_shift, b.opacity_shift, t)) & (r.hsl_shift[0] == t * 0.5f) & (r.hsl_shift[1] == t * -0.25f) & (r.hsl_shift[2] == 1 - t) & (r.surface_uv.x == t) & (r.surface_uv.y == 1 - t), "values are interpolated"); __vp_reach("end");
}
VP_ENTRY(k03_barycentric) { // also with coordinates outside the triangle
  int la = L("la"), lb = L("lb"), lc = L("lc"); Attr a = A(0, la, 2), b = A(1, lb, lb), c = A(2, lc, lc); float s = vp::grid("s", -4, 11, 3); int k = __vp_concretize(__vp_range("k", 0, 4)); std::array<float, 3> t = k == 0 ? std::array<float, 3>{0, 1 - s, s} : k == 1 ? std::array<float, 3>{1 - s, 0, s} : k == 2 ? std::array<float, 3>{1 - s, s, 0} : k == 3 ? std::array<float, 3>{0.75f - s, s, 0.25f} : std::array<float, 3>{s, 0.375f, 0.625f - s}; Attr r = BarycentricLerp(a, b, c, t);
  float fa = FullOf(kL[la]), fb = FullOf(kL[lb]), fc = FullOf(kL[lc]); float want = t[0] == 0 ? Want(fb, fc, t[2]) : t[1] == 0 ? Want(fa, fc, t[2]) : t[2] == 0 ? Want(fa, fb, t[1]) : 0; __vp_assert(r.side_label.encoded_value == want, "side label"); want = t[0] == 0 ? Want(fb, fc, t[2]) : t[1] == 0 ? Want(0, fc, t[2]) : t[2] == 0 ? Want(0, fb, t[1]) : 0; __vp_assert(r.forward_label.encoded_value == want, "forward label");
  __vp_assert(r.side_derivative == Vec{0, 0} && r.forward_derivative == Vec{0, 0}, "derivatives are cleared"); auto Mix = [&](float x, float y, float z) { return x * t[0] + y * t[1] + z * t[2]; };
  __vp_assert((r.opacity_shift == Mix(-0.5f, -0.25f, 0)) & (r.hsl_shift[0] == Mix(0, 0.5f, 1)) & (r.hsl_shift[1] == Mix(0, -0.25f, -0.5f)) & (r.hsl_shift[2] == Mix(1, 0, -1)) & (r.surface_uv.x == Mix(0, 1, 2)) & (r.surface_uv.y == Mix(1, 0, -3)), "values are weighted sums"); __vp_reach("end");
}
