import runpy,os
D=os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/plants'
L={}
for k in range(1,7):
    for n,p,f,o,nw in runpy.run_path(f'{D}/list{k}.py')['B']: L[n]=(p,[(f,o,nw)])
def b(id,src,srcs,demo,needs,breaks,**k):
    p,e=L[src]; return dict(id=id,prop=p,edits=e,srcs=srcs,demo=demo,needs=needs,breaks=breaks,**k)
B=[
b('quad-shear-over-cosine','quad-axes-cos','G05','''#include "ink/geometry/quad.h"
int main() { using namespace ink; Quad q = Quad::FromCenterDimensionsRotationAndShear({0, 0}, 2, 4, Angle::Radians(0.6435011f), 1); auto k = q.Corners(); // cos = 0.8, sin = 0.6
 REQ(std::abs(k[2].x - (0.8f + 2 * (0.8f - 0.6f))) < 1e-3f); REQ(std::abs(k[2].y - (0.6f + 2 * (0.6f + 0.8f))) < 1e-3f); return 0; }
''','a quad that is both sheared and rotated by an angle that is no multiple of a half turn','corners of oblique sheared quads are displaced'),
b('triangle-inside-first','ii-tri-tri','G08','''#include "ink/geometry/intersects.h"
int main() { using namespace ink; Triangle big{{0, 0}, {10, 0}, {0, 10}}, small{{1, 1}, {2, 1}, {1, 2}}; REQ(geometry_internal::IntersectsInternal(big, small)); REQ(geometry_internal::IntersectsInternal(small, big)); return 0; }
'''.replace('#include "ink/geometry/intersects.h"','#include "ink/geometry/internal/intersects_internal.h"'),'the second triangle lies strictly inside the first','nested triangles do not intersect in one argument order'),
b('omitted-non-finite','am-finite-omit','M07','''#include "ink/geometry/mutable_mesh.h"
int main() { using namespace ink; typedef MeshFormat F; auto f = F::Create({{F::AttributeType::kFloat2Unpacked, F::AttributeId::kPosition}, {F::AttributeType::kFloat1Unpacked, F::AttributeId::kCustom0}}, F::IndexFormat::k32BitUnpacked16BitPacked); REQ(f.ok()); MutableMesh m(*f); m.AppendVertex({0, 0}); m.AppendVertex({1, 0}); m.AppendVertex({0, 1}); m.AppendTriangleIndices({0, 1, 2}); m.SetFloatVertexAttribute(1, 1, {NAN}); F::AttributeId om[1] = {F::AttributeId::kCustom0}; auto r = m.AsMeshes({}, om); REQ(r.ok()); REQ(!m.AsMeshes().ok()); return 0; }
''','a non-finite value in an attribute that is left out of the packed mesh','meshes are rejected because of values they do not contain'),
b('partition-map-kept','pt-clear','M05','''#include "ink/geometry/internal/mesh_packing.h"
int main() { using namespace ink; uint32_t ix[9] = {0, 1, 2, 5, 6, 7, 2, 1, 8}; std::vector<std::byte> d(36); for (int t = 0; t < 3; t++) mesh_internal::WriteTriangleIndicesToByteArray(t, 4, absl::MakeConstSpan(ix + 3 * t, 3), d); auto p = mesh_internal::PartitionTriangles(d, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked, 4); int t = 0; for (auto& q : p) for (auto& tri : q.triangles) { for (int k = 0; k < 3; k++) { REQ(tri[k] < q.vertex_indices.size()); REQ(q.vertex_indices[tri[k]] == ix[3 * t + k]); } t++; } REQ(t == 3); return 0; }
''','a partition overflows on a triangle none of whose vertices it holds, and a later triangle reuses a vertex of the closed partition','local vertex indices of the next partition point to the wrong vertices'),
b('nudge-past-the-code-range','nudge-bounds','M07','''#include "ink/geometry/mutable_mesh.h"
int main() { using namespace ink; typedef MeshFormat F; auto f = F::Create({{F::AttributeType::kFloat2PackedIn3UnsignedBytes_XY12, F::AttributeId::kPosition}}, F::IndexFormat::k32BitUnpacked16BitPacked); REQ(f.ok()); std::vector<std::optional<MeshAttributeCodingParams>> cu(1); cu[0] = MeshAttributeCodingParams{.components = SmallArray<MeshAttributeCodingParams::ComponentCodingParams, 4>(2, {.offset = 0, .scale = 1})};
 const float fr[4] = {0, 0.375f, 0.5f, 0.625f}; for (int which = 0; which < 3; which++) for (int a = 0; a < 4; a++) for (int c = 0; c < 4; c++) for (int fl = 0; fl < 2; fl++) for (int t = 0; t < 128; t++) { Point v[3] = {{8, fr[a]}, {0, fr[c]}, {3, 0.375f}}; v[which].y = t / 64.f; for (auto& p : v) p = {4095 - p.y, p.x}; MutableMesh m(*f); for (auto& p : v) m.AppendVertex(p); uint32_t i1 = fl ? 2 : 1, i2 = fl ? 1 : 2; m.AppendTriangleIndices({0, i1, i2}); auto r = m.AsMeshes(cu); REQ(r.ok()); auto g = (*r)[0]; auto q = g.TriangleIndices(0); uint32_t o[3] = {0, i1, i2}; for (int k = 0; k < 3; k++) { Point p = g.VertexPosition(q[k]); REQ(std::abs(p.x - v[o[k]].x) <= 1 && std::abs(p.y - v[o[k]].y) <= 1); } } return 0; }
''','a triangle flipped by quantization with a vertex at the largest representable coordinate','correcting the flip moves the vertex out of the representable range'),
b('lerp-one-orientation','lerp-orient-a','K04','''#include "ink/strokes/internal/brush_tip_modeler_helpers.h"
int main() { using namespace ink; using namespace ink::strokes_internal; ModeledStrokeInput a, b; a.orientation = Angle::Radians(1); REQ(Lerp(a, b, 0.5f).orientation == StrokeInput::kNoOrientation); REQ(Lerp(b, a, 0.5f).orientation == StrokeInput::kNoOrientation); return 0; }
''','interpolating between an input with orientation and a later one without','the placeholder for a missing orientation is interpolated as if it were an angle'),
b('batch-append-compares-first','append-batch-last','S01','''#include "ink/strokes/input/stroke_input_batch.h"
int main() { using namespace ink; StrokeInputBatch a, b; StrokeInput s; s.position = {1, 1}; s.elapsed_time = Duration32::Seconds(1); REQ(a.Append(s).ok()); s.position = {2, 1}; s.elapsed_time = Duration32::Seconds(3); REQ(a.Append(s).ok()); s.position = {3, 1}; s.elapsed_time = Duration32::Seconds(2); REQ(b.Append(s).ok()); REQ(!a.Append(b).ok()); REQ(a.Size() == 2); return 0; }
''','appending a batch that starts after the first but before the last input','a batch with decreasing times'),
b('flat-quad-loses-shear','af-quad-zeroheight','G06','''#include "ink/geometry/affine_transform.h"
int main() { using namespace ink; Quad q = Quad::FromCenterDimensionsRotationAndShear({1, 2}, 2, 0, Angle::Radians(0.5f), 1), f = Quad::FromCenterDimensionsRotationAndShear({1, 2}, 2, 4, Angle::Radians(0.5f), 1); AffineTransform t(2, 1, 0, 0, 1, 3); REQ(std::abs(t.Apply(q).ShearFactor() - t.Apply(f).ShearFactor()) < 1e-3f); return 0; }
''','a sheared quad of height zero','transforming it forgets its shear'),
]
B=[x for x in B if x['needs']!='tbd']
