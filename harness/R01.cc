// SRC: ink/rendering/bitmap.cc
// BOUND: every width, height, enumerator value and data size (32- and 64-bit)
// ASSUME: error texts are not modelled; a span of any claimed size stands in for the pixel data, which validation does not read
#include <vector>

#include "ink/rendering/bitmap.h"
#include "vp.h"
using namespace ink;
struct Fake : Bitmap { const uint8_t* p; size_t n; Fake(int w, int h, int f, int c, int s, size_t n) : Bitmap(w, h, (PixelFormat)f, (Color::Format)c, (ColorSpace)s), n(n) {} absl::Span<const uint8_t> GetPixelData() const override { static uint8_t x; return absl::Span<const uint8_t>(&x, n); } };
VP_ENTRY(r01_validate) {
  int w = __vp_i32("w"), h = __vp_i32("h"), f = __vp_i32("f"), c = __vp_i32("c"), s = __vp_i32("s"); uint64_t n = __vp_u64("n"); Fake b(w, h, f, c, s, n);
  __vp_assert((b.width() == w) & (b.height() == h) & ((int)b.pixel_format() == f) & ((int)b.color_format() == c) & ((int)b.color_space() == s), "fields are kept");
  bool enums = (f == 0) & (c >= 0) & (c <= 2) & (s >= 0) & (s <= 1); unsigned __int128 need = (unsigned __int128)(uint32_t)w * (uint32_t)h * 4; bool want = (w > 0) & (h > 0) & enums & (need == n); bool ok = rendering_internal::ValidateBitmap(b).ok();
  __vp_assert(ok == want, "valid exactly when dimensions are positive, enumerators known and the data size is right"); if (ok) __vp_reach("valid"); else __vp_reach("invalid");
}
VP_ENTRY(r01_vector) { // a bitmap of bytes
  int w = __vp_range("w", -2, 3), h = __vp_range("h", -2, 3); int n = __vp_concretize(__vp_range("n", 0, 40)); std::vector<uint8_t> d(n); if (n) d[n - 1] = __vp_u8("d"); uint8_t last = n ? d[n - 1] : 0; VectorBitmap b(w, h, Bitmap::PixelFormat::kRgba8888, Color::Format::kGammaEncoded, ColorSpace::kDisplayP3, d); auto g = b.GetPixelData(); __vp_assert(g.size() == d.size() && (!n || g[n - 1] == last), "pixel data are kept"); __vp_assert(rendering_internal::ValidateBitmap(b).ok() == ((w > 0) & (h > 0) & (w * h * 4 == n)), "valid exactly when complete"); __vp_assert(PixelFormatBytesPerPixel(b.pixel_format()) == 4, "bytes per pixel"); __vp_reach("end");
}
VP_ENTRY(r01_unknown_format) { int f = __vp_i32("f"); __vp_assume(f != 0); __vp_expect_check_fail(); PixelFormatBytesPerPixel((Bitmap::PixelFormat)f); __vp_assert(false, "unknown formats have no size"); }
