// Stand-in for Skia's meshes: specifications list uniforms with their offsets, meshes keep what they were made of.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string_view>
#include <vector>
#include "absl/types/span.h"
#include "include/core/SkAlphaType.h"
#include "include/core/SkData.h"
#include "include/core/SkRect.h"
#include "include/core/SkString.h"
struct SkColorSpace;
struct SkCounted { mutable int c_ = 1; virtual ~SkCounted() = default; void ref() const { ++c_; } void unref() const { if (--c_ == 0) delete this; } };
class SkMeshSpecification : public SkCounted {
 public:
  struct Uniform { enum class Type { kFloat, kFloat2, kFloat3, kFloat4, kFloat2x2, kFloat3x3, kFloat4x4, kInt, kInt2, kInt3, kInt4 }; std::string_view name; Type type; size_t offset; };
  std::vector<Uniform> list; size_t size = 0;
  SkMeshSpecification() = default; SkMeshSpecification(const SkMeshSpecification& o) : list(o.list), size(o.size) {} SkMeshSpecification(SkMeshSpecification&& o) : list(o.list), size(o.size) {} SkMeshSpecification& operator=(const SkMeshSpecification& o) { list = o.list; size = o.size; return *this; }
  static constexpr size_t kMaxAttributes = 8, kMaxVaryings = 6;
  struct Attribute { enum class Type { kFloat, kFloat2, kFloat3, kFloat4, kUByte4_unorm }; Type type; size_t offset; SkString name; };
  struct Varying { enum class Type { kFloat, kFloat2, kFloat3, kFloat4, kHalf, kHalf2, kHalf3, kHalf4 }; Type type; SkString name; };
  struct Result;
  // Defined by the harnesses that make specifications.
  static Result Make(absl::Span<const Attribute> attributes, size_t stride, absl::Span<const Varying> varyings, const SkString& vs, const SkString& fs, sk_sp<SkColorSpace> space, SkAlphaType alpha);
  const std::vector<Uniform>& uniforms() const { return list; }
  size_t uniformSize() const { return size; }
  const Uniform* findUniform(std::string_view n) const { for (const Uniform& u : list) { if (u.name.size() != n.size()) continue; bool eq = true; for (size_t i = 0; i < n.size() && eq; ++i) eq = u.name[i] == n[i]; if (eq) return &u; } return nullptr; }
};
struct SkMeshSpecification::Result { sk_sp<SkMeshSpecification> specification; SkString error; };
class SkMesh {
 public:
  enum class Mode { kTriangles, kTriangleStrip };
  struct VertexBuffer : SkCounted {}; struct IndexBuffer : SkCounted {};
  struct ChildPtr {}; struct Result;
  // Like Skia, refuses meshes without triangles, with incomplete ones, or with uniforms of the wrong size.
  static Result MakeIndexed(sk_sp<SkMeshSpecification> spec, Mode mode, sk_sp<VertexBuffer> vb, size_t vc, size_t vo, sk_sp<IndexBuffer> ib, size_t ic, size_t io, sk_sp<const SkData> uniforms, std::vector<ChildPtr> children, const SkRect& bounds);
  bool isValid() const { return valid; }
  bool valid = false; sk_sp<SkMeshSpecification> spec; Mode mode = Mode::kTriangles; sk_sp<VertexBuffer> vb; sk_sp<IndexBuffer> ib; size_t vc = 0, vo = 0, ic = 0, io = 0; sk_sp<const SkData> uniforms; SkRect bounds{};
};
struct SkMesh::Result { SkMesh mesh; std::string_view error; };
inline SkMesh::Result SkMesh::MakeIndexed(sk_sp<SkMeshSpecification> spec, Mode mode, sk_sp<VertexBuffer> vb, size_t vc, size_t vo, sk_sp<IndexBuffer> ib, size_t ic, size_t io, sk_sp<const SkData> uniforms, std::vector<ChildPtr>, const SkRect& bounds) {
  Result r; SkMesh& m = r.mesh; m.valid = spec.get() && vb.get() && ib.get() && vc >= 3 && ic >= 3 && ic % 3 == 0 && spec->uniformSize() == (uniforms.get() ? uniforms->size() : 0); m.spec = spec; m.mode = mode; m.vb = vb; m.ib = ib; m.vc = vc; m.vo = vo; m.ic = ic; m.io = io; m.uniforms = uniforms; m.bounds = bounds; if (!m.valid) r.error = "refused"; return r;
}
