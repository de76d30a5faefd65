import runpy,os
D='/verif/tools/plants'
L={}
for k in list(range(7,10)):
    for n,p,f,o,nw in runpy.run_path(f'{D}/list{k}.py')['B']: L[n]=(p,[(f,o,nw)])
def b(id,src,prop,srcs,demo,needs,breaks,**k):
    p,e=L[src]; return dict(id=id,prop=prop,edits=e,srcs=srcs,demo=demo,needs=needs,breaks=breaks,**k)
B=[
b('gamma-decode-early-switch','c-dec','C02','C02','''#include "ink/color/color_space.h"
int main() { using namespace ink; for (int i = 0; i <= 4000; ++i) { double v = i / 4000.0, want = v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4); REQ(std::abs(GammaDecode(v, ColorSpace::kSrgb) - want) < 1e-6); } return 0; }
''','an encoded value between a half and the whole of the switch point of the sRGB curve','dark colours decode with the wrong part of the transfer curve'),
b('matrix-layout-swap','c-row','C03','C03','''#include "ink/color/color_space.h"
int main() { using namespace ink; for (auto s : {ColorSpace::kSrgb, ColorSpace::kDisplayP3}) { auto r = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kRowMajor), c = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kColumnMajor); for (int i = 0; i < 9; ++i) REQ(r[i] == c[i % 3 * 3 + i / 3]); } return 0; }
''','reading the row-major matrix of a colour space','green and blue are mixed up when converting to XYZ'),
b('interior-corner-width','dc-left','E07','E07','''#include "ink/strokes/internal/brush_tip_extruder/derivative_calculator.h"
int main() { using namespace ink; using namespace ink::brush_tip_extruder_internal; using SV = strokes_internal::StrokeVertex; const Point v[6] = {{0, 0}, {1, 0}, {-1, 3}, {3, 2}, {-2, 6}, {6, 4}};
 auto last = [&](bool touch) { MutableMesh m(SV::FullMeshFormat()); MutableMeshView w(m); for (int i = 0; i < 6; ++i) { w.AppendVertex({.position = v[i]}); w.SetSideLabel(i, i & 1 ? SV::kExteriorRightLabel : SV::kExteriorLeftLabel); w.SetForwardLabel(i, SV::kInteriorLabel); } w.SetSideLabel(2, SV::kInteriorLabel); for (uint32_t i = 0; i < 4; ++i) { if (i & 1) w.AppendTriangleIndices({i + 1, i, i + 2}); else w.AppendTriangleIndices({i, i + 1, i + 2}); } std::vector<uint32_t> l = {0, 2, 4}, r = {1, 3, 5}; DerivativeCalculator c; c.UpdateMesh(l, r, w); return w.GetSideDerivative(4); };
 Vec d = last(true), e = v[5] - v[3]; Vec a = v[4] - v[3]; float k = Vec::DotProduct(a, e) / e.MagnitudeSquared(); Vec want = k * e - a; REQ((d - want).Magnitude() < 1e-3f * want.Magnitude()); return 0; } // vertex 4 has a width in one triangle only: its other one starts at an interior vertex
''','a triangle of the left side that starts at an interior vertex','side derivatives count the width of triangles without an outer edge'),
]
