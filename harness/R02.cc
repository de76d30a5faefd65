// SRC: ink/rendering/skia/common_internal/mesh_specification_data.cc ink/strokes/internal/stroke_vertex.cc ink/geometry/mesh_format.cc ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/internal/algorithms.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/triangle.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// FLAGS: -DVP_STRCAT
// OPT: budget=120
// BOUND: formats made from the 8 stroke attributes: every type combination for each pair that is rendered as one attribute, every subset, every swap of two attributes with another attribute inserted anywhere, every combination of the supported types, both index widths; every uniform id
// ASSUME: shader programs are only matched against the declared attributes, uniforms and varyings, not compiled
#include <string>
#include <vector>

#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "vp.h"
using namespace ink; using skia_common_internal::MeshSpecificationData; using strokes_internal::StrokeVertex; typedef MeshFormat::AttributeType T; typedef MeshFormat::AttributeId Id; typedef MeshSpecificationData D; typedef std::vector<std::pair<T, Id>> List;
static const Id kId[8] = {Id::kPosition, Id::kOpacityShift, Id::kColorShiftHsl, Id::kSideDerivative, Id::kSideLabel, Id::kForwardDerivative, Id::kForwardLabel, Id::kSurfaceUv};
static const T kPacked[8] = {T::kFloat2PackedIn3UnsignedBytes_XY12, T::kFloat1PackedIn1UnsignedByte, T::kFloat3PackedIn4UnsignedBytes_XYZ10, T::kFloat2PackedIn3UnsignedBytes_XY12, T::kFloat1PackedIn1UnsignedByte, T::kFloat2PackedIn3UnsignedBytes_XY12, T::kFloat1PackedIn1UnsignedByte, T::kFloat2PackedIn4UnsignedBytes_X12_Y20};
static const T kLoose[8] = {T::kFloat2PackedIn1Float, T::kFloat1Unpacked, T::kFloat3Unpacked, T::kFloat2Unpacked, T::kFloat1Unpacked, T::kFloat2Unpacked, T::kFloat1Unpacked, T::kFloat2Unpacked};
static const absl::string_view kName[5] = {"positionAndOpacityShift", "hslShift", "sideDerivativeAndLabel", "forwardDerivativeAndLabel", "surfaceUv"};
static int At(const MeshFormat& f, int k) { int r = -1, i = 0; for (const auto& a : f.Attributes()) { if (a.id == kId[k]) r = i; ++i; } return r; }
// ---- what a specification must say about a format
struct Want { bool ok = true; int type[5], offset[5], size[5]; bool has[5]; };  // groups in the order of kName
static const int kFirst[5] = {0, 2, 3, 5, 7};
static Want Expect(const MeshFormat& f, bool packed) {
  Want w; auto as = f.Attributes(); int at[8]; for (int k = 0; k < 8; ++k) at[k] = At(f, k);
  for (int g = 0; g < 5; ++g) { int k = kFirst[g]; bool pair = g == 0 || g == 2 || g == 3; w.has[g] = at[k] >= 0; if (at[k] < 0) { w.ok = w.ok && !pair; continue; } if (pair && at[k + 1] != at[k] + 1) { w.ok = false; continue; }
    T t = as[at[k]].type, u = pair ? as[at[k + 1]].type : T::kFloat1Unpacked; bool is_packed = t == kPacked[k] && (!pair || u == kPacked[k + 1]), is_loose = t == kLoose[k] && (!pair || u == kLoose[k + 1]); if (!is_packed && !is_loose) { w.ok = false; continue; }
    w.offset[g] = as[at[k]].packed_offset; w.type[g] = is_packed ? 4 : g == 0 ? 1 : g == 4 ? 1 : 2; w.size[g] = as[at[k]].packed_width + (pair ? as[at[k + 1]].packed_width : 0); }
  return w;
}
static bool Ident(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
static size_t Find(const std::string& s, absl::string_view w, size_t from) { if (w.size() > s.size()) return std::string::npos; for (size_t i = from; i + w.size() <= s.size(); ++i) { if (s[i] != w[0]) continue; bool eq = true; for (size_t j = 1; j < w.size() && eq; ++j) eq = s[i + j] == w[j]; if (eq && (i == 0 || !Ident(s[i - 1]))) return i; } return std::string::npos; }
static std::string Word(const std::string& s, size_t& i) { while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i; std::string r; while (i < s.size() && Ident(s[i])) r += s[i++]; return r; }
static absl::string_view UType(D::UniformType t) { return t == D::UniformType::kInt ? "int" : "float4"; }
static void Shaders(const D& d) { // the vertex program declares exactly the listed uniforms, reads exactly the listed attributes and writes exactly the listed varyings
  const std::string& s = d.vertex_shader_source; size_t uniforms = 0; for (size_t i = Find(s, "uniform ", 0); i != std::string::npos; i = Find(s, "uniform ", i)) { i += 8; std::string t = Word(s, i), n = Word(s, i); bool listed = false; for (const auto& u : d.uniforms.Values()) listed = listed || (D::GetUniformName(u.id) == n && UType(u.type) == t); __vp_assert(listed, "declared uniforms are listed with their type"); ++uniforms; } __vp_assert(uniforms == d.uniforms.Size(), "every listed uniform is declared");
  bool used[5] = {}; for (size_t i = Find(s, "attributes.", 0); i != std::string::npos; i = Find(s, "attributes.", i)) { i += 11; std::string n = Word(s, i); bool listed = false; int k = 0; for (const auto& a : d.attributes.Values()) { if (a.name == n) { listed = true; used[k] = true; } ++k; } __vp_assert(listed, "only listed attributes are read"); } for (int k = 0; k < d.attributes.Size(); ++k) __vp_assert(used[k], "every listed attribute is read");
  bool set[5] = {}; const std::string& f = d.fragment_shader_source; for (int pass = 0; pass < 2; ++pass) { const std::string& p = pass ? f : s; for (size_t i = Find(p, "varyings.", 0); i != std::string::npos; i = Find(p, "varyings.", i)) { i += 9; std::string n = Word(p, i); bool listed = !pass && n == "position"; int k = 0; for (const auto& v : d.varyings.Values()) { if (v.name == n) { listed = true; if (!pass) set[k] = true; } ++k; } __vp_assert(listed, "only listed varyings are used"); } } for (int k = 0; k < d.varyings.Size(); ++k) __vp_assert(set[k], "every varying is set"); __vp_assert(Find(f, "uniform ", 0) == std::string::npos, "the fragment program needs no uniforms");
}
static void Common(const D& d, int stride) {
  __vp_assert(d.vertex_stride == stride, "vertex stride"); __vp_assert(d.varyings.Size() == 5, "varyings"); static const absl::string_view vn[5] = {"color", "textureCoords", "pixelsPerDimension", "normalizedToEdgeLRFB", "outsetPixelsLRFB"}; static const int vt[5] = {3, 1, 1, 3, 3}; for (int k = 0; k < 5; ++k) { int n = 0; for (const auto& v : d.varyings.Values()) n += v.name == vn[k] && (int)v.type == vt[k]; __vp_assert(n == 1, "each varying once with its type"); }
}
static void Check(const MeshFormat& f, bool shaders) {
  Want w = Expect(f, true); auto d = D::CreateForStroke(f); __vp_assert(d.ok() == w.ok, "accepted exactly when supported"); if (!d.ok() || !w.ok) { __vp_reach("refused"); return; }
  int n = 0; for (int g = 0; g < 5; ++g) { int found = 0; for (const auto& a : d->attributes.Values()) if (a.name == kName[g]) { ++found; __vp_assert((int)a.type == w.type[g] && a.offset == w.offset[g], "attribute type and offset"); static const int bytes[5] = {0, 8, 12, 0, 4}; __vp_assert(bytes[(int)a.type] == w.size[g], "the rendered type covers exactly the attribute's bytes"); } __vp_assert(found == (w.has[g] ? 1 : 0), "each attribute once"); n += w.has[g]; } __vp_assert(d->attributes.Size() == n, "no other attributes");
  Common(*d, f.PackedVertexStride()); __vp_assert(d->uniforms.Size() == 6, "uniforms"); for (int u = 0; u < 6; ++u) { int c = 0; for (const auto& x : d->uniforms.Values()) if ((int)x.id == u) { ++c; __vp_assert(x.type == (u == 5 ? D::UniformType::kInt : D::UniformType::kFloat4), "uniform type"); int at = u == 2 ? At(f, 0) : u == 3 ? At(f, 3) : u == 4 ? At(f, 5) : -1; __vp_assert(x.unpacking_attribute_index.value_or(-1) == at, "unpacking transforms name their attribute"); } __vp_assert(c == 1, "each uniform once"); }
  if (shaders) Shaders(*d); __vp_reach("accepted");
}
static List Full(bool packed = true) { List l; for (int k = 0; k < 8; ++k) l.push_back({packed ? kPacked[k] : kLoose[k], kId[k]}); return l; }
static void Try(const List& l, bool wide, bool shaders = false) { auto f = MeshFormat::Create(l, wide ? MeshFormat::IndexFormat::k32BitUnpacked16BitPacked : MeshFormat::IndexFormat::k16BitUnpacked16BitPacked); if (!f.ok()) return; Check(*f, shaders); }
static int Pick(const char* n, int hi) { return __vp_concretize(__vp_range(n, 0, hi)); }
static void Types(int a, int b) { List l = Full(Pick("base", 1)); l[a].first = (T)__vp_range("t", 0, 13); if (b >= 0) l[b].first = (T)__vp_range("u", 0, 13); Try(l, false); }
VP_ENTRY(r02_types_position) { Types(0, 1); }
VP_ENTRY(r02_types_side) { Types(3, 4); }
VP_ENTRY(r02_types_forward) { Types(5, 6); }
VP_ENTRY(r02_types_hsl) { Types(2, -1); }
VP_ENTRY(r02_types_uv) { Types(7, -1); }
VP_ENTRY(r02_subsets) { unsigned m = Pick("m", 255); List l, f = Full(); for (int k = 0; k < 8; ++k) if (m >> k & 1) l.push_back(f[k]); Try(l, true); }
VP_ENTRY(r02_order) { int i = Pick("i", 7), j = Pick("j", 7), at = Pick("at", 9); if (j < i) return; List l = Full(); std::swap(l[i], l[j]); if (at < 9) l.insert(l.begin() + at, {T::kFloat1PackedIn1UnsignedByte, Id::kCustom4}); Try(l, true); }
VP_ENTRY(r02_supported) { // every supported combination, the programs matched against the lists
  unsigned m = Pick("m", 7); int h = Pick("h", 2), u = Pick("u", 2), x = Pick("x", 1); List l; if (x) l.push_back({T::kFloat4PackedIn2Floats, Id::kCustom0}); bool p[8] = {!!(m & 1), !!(m & 1), h == 1, !!(m & 2), !!(m & 2), !!(m & 4), !!(m & 4), u == 1}; for (int k = 7; k >= 0; --k) { if ((k == 2 && h == 2) || (k == 7 && u == 2)) continue; int q = k == 6 ? 5 : k == 5 ? 6 : k == 4 ? 3 : k == 3 ? 4 : k == 1 ? 0 : k == 0 ? 1 : k; l.push_back({p[q] ? kPacked[q] : kLoose[q], kId[q]}); } Try(l, false, (m == 0 || m == 5) && !x);
}
VP_ENTRY(r02_in_progress) {
  D d = D::CreateForInProgressStroke(); MeshFormat f = StrokeVertex::FullMeshFormat(); __vp_assert(d.attributes.Size() == 5, "five attributes"); for (int g = 0; g < 5; ++g) { int c = 0; for (const auto& a : d.attributes.Values()) if (a.name == kName[g]) { ++c; __vp_assert(a.offset == f.Attributes()[kFirst[g]].unpacked_offset && (int)a.type == (g == 4 ? 1 : 2), "attribute type and offset"); } __vp_assert(c == 1, "each attribute once"); }
  Common(d, f.UnpackedVertexStride()); __vp_assert(d.uniforms.Size() == 3, "uniforms"); for (int u : {0, 1, 5}) { int c = 0; for (const auto& x : d.uniforms.Values()) c += (int)x.id == u && x.type == (u == 5 ? D::UniformType::kInt : D::UniformType::kFloat4) && !x.unpacking_attribute_index.has_value(); __vp_assert(c == 1, "each uniform once"); } Shaders(d); __vp_reach("end");
}
VP_ENTRY(r02_in_progress_format) { // only the exact format of an in-progress stroke
  int k = Pick("k", 7), t = __vp_range("t", 0, 13), sw = Pick("sw", 1); List l = Full(); l[k].first = (T)t; if (sw) std::swap(l[k], l[(k + 1) % 8]); bool wide = Pick("wide", 1); auto f = MeshFormat::Create(l, wide ? MeshFormat::IndexFormat::k32BitUnpacked16BitPacked : MeshFormat::IndexFormat::k16BitUnpacked16BitPacked); if (!f.ok()) return; bool same = wide && !sw && (T)t == kPacked[k]; auto d = D::CreateForInProgressStroke(*f); __vp_assert(d.ok() == same, "accepted exactly for its own format"); __vp_reach("end");
}
VP_ENTRY(r02_names) { int i = __vp_i32("i"); auto n = D::GetUniformName((D::UniformId)i); bool named = (i >= 0) & (i <= 5); __vp_assert((n.size() != 0) == named, "exactly the enumerators are named"); if (!named) return; i = __vp_concretize(i); for (int j = 0; j < 6; ++j) __vp_assert((D::GetUniformName((D::UniformId)j) == D::GetUniformName((D::UniformId)i)) == (i == j), "names are distinct"); __vp_reach("end"); }
