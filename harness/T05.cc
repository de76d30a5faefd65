// BOUND: capacities 0, 1, 4 and 255 (index only), every size up to the capacity, symbolic 32-bit elements; two successive resizes
#include "ink/types/small_array.h"
#include "vp.h"
#include <string>
using ink::SmallArray;
namespace {
template <int N> void Elems(int* v) { for (int i = 0; i < N; ++i) v[i] = __vp_i32("e"); }
template <int N> void Expect(SmallArray<int, N>& a, const int* v, int n) {
  const SmallArray<int, N>& c = a;
  __vp_assert(a.Size() == n, "size");
  __vp_assert(a.MaxSize() == N, "capacity");
  __vp_assert((int)a.Values().size() == n && (int)c.Values().size() == n, "span size");
  for (int i = 0; i < n; ++i) __vp_assert(a[i] == v[i] && c[i] == v[i] && a.Values()[i] == v[i] && c.Values().data()[i] == v[i], "element");
}
template <int N> SmallArray<int, N> Make(const int* v, int n) { return SmallArray<int, N>(absl::Span<const int>(v, n)); }
}
VP_ENTRY(t05_construct) {
  int v[4]; Elems<4>(v);
  int n = __vp_concretize(__vp_range("n", 0, 4));
  SmallArray<int, 4> a = Make<4>(v, n); Expect<4>(a, v, n);
  int f = __vp_i32("fill"); int w[4] = {f, f, f, f};
  SmallArray<int, 4> b(static_cast<uint8_t>(n), f); Expect<4>(b, w, n);
  int z[4] = {0, 0, 0, 0};
  SmallArray<int, 4> d(static_cast<uint8_t>(n)); Expect<4>(d, z, n);
  SmallArray<int, 4> il = {v[0], v[1], v[2]}; Expect<4>(il, v, 3);
  SmallArray<int, 4> e; Expect<4>(e, v, 0);
  SmallArray<int, 1> one = {v[0]}; Expect<1>(one, v, 1);
  SmallArray<int, 4> c = a; Expect<4>(c, v, n);
  c = il; Expect<4>(c, v, 3);
  __vp_reach("end");
}
VP_ENTRY(t05_write) {
  int v[4]; Elems<4>(v); int n = __vp_concretize(__vp_range("n", 1, 4));
  SmallArray<int, 4> a = Make<4>(v, n), b = a;
  int i = __vp_range("i", 0, 3); __vp_assume(i < n);
  int x = __vp_i32("x");
  a[i] = x; Expect<4>(b, v, n);
  v[i] = x; Expect<4>(a, v, n);
  int y = __vp_i32("y"); a.Values()[0] = y; v[0] = y; Expect<4>(a, v, n);
  __vp_reach("end");
}
VP_ENTRY(t05_resize) {
  int v[4]; Elems<4>(v); int n = __vp_concretize(__vp_range("n", 0, 4));
  SmallArray<int, 4> a = Make<4>(v, n);
  for (int k = 0; k < 2; ++k) {
    int m = __vp_concretize(__vp_range("m", 0, 4));
    int f = 0;
    if (__vp_bool("withfill")) { f = __vp_i32("f"); a.Resize(m, f); } else a.Resize(m);
    for (int i = n; i < m; ++i) v[i] = f;
    n = m;
    Expect<4>(a, v, n);
  }
  __vp_reach("end");
}
VP_ENTRY(t05_release) {  // dropped elements are destroyed / reset
  SmallArray<std::string, 3> a(2, std::string("a string too long for the small buffer"));
  int m = __vp_concretize(__vp_range("m", 0, 3));
  a.Resize(m, "x");
  for (int i = m; i < 3; ++i) __vp_assert(a.Values().data()[i].empty(), "excess elements are reset");
  a.Resize(3);
  for (int i = 0; i < 3; ++i) __vp_assert(a[i] == (i >= m ? "" : i < 2 ? "a string too long for the small buffer" : "x"), "strings");
  __vp_reach("end");
}
VP_ENTRY(t05_equal) {
  int v[3], w[3]; Elems<3>(v); Elems<3>(w);
  int n = __vp_concretize(__vp_range("n", 0, 3)), m = __vp_concretize(__vp_range("m", 0, 3));
  SmallArray<int, 3> a = Make<3>(v, n), b = Make<3>(w, m);
  bool eq = n == m; for (int i = 0; i < n && i < m; ++i) eq = eq & (v[i] == w[i]);
  __vp_assert((a == b) == eq, "equality");
  __vp_assert(!(a != b) == eq, "inequality");
  __vp_reach("end");
}
VP_ENTRY(t05_big) {
  SmallArray<uint8_t, 255> a(255, 9);
  uint8_t i = __vp_u8("i"); __vp_assume(i < 255);
  uint8_t x = __vp_u8("x"); a[i] = x;
  uint8_t j = __vp_u8("j"); __vp_assume(j < 255);
  __vp_assert(a[j] == (i == j ? x : 9), "element");
  __vp_assert(a.Size() == 255 && a.MaxSize() == 255, "size");
  __vp_reach("end");
}
VP_ENTRY(t05_over_count) { int n = __vp_concretize(__vp_range("n", 4, 255)); __vp_expect_check_fail(); SmallArray<int, 3> a((uint8_t)n, 1); __vp_assert(false, "count above capacity must fail"); }
VP_ENTRY(t05_over_span) { int v[6] = {1, 2, 3, 4, 5, 6}; int n = __vp_concretize(__vp_range("n", 4, 6)); __vp_expect_check_fail(); SmallArray<int, 3> a(absl::Span<const int>(v, n)); __vp_assert(false, "span above capacity must fail"); }
VP_ENTRY(t05_over_list) { __vp_expect_check_fail(); SmallArray<int, 3> a = {1, 2, 3, 4}; __vp_assert(false, "list above capacity must fail"); }
VP_ENTRY(t05_over_resize) { SmallArray<int, 3> a(__vp_concretize(__vp_range("s", 0, 3)), 1); int n = __vp_concretize(__vp_range("n", 4, 255)); __vp_expect_check_fail(); a.Resize(n); __vp_assert(false, "resize above capacity must fail"); }
VP_ENTRY(t05_over_index) { int s = __vp_concretize(__vp_range("s", 0, 3)); SmallArray<int, 3> a(s, 1); uint8_t i = __vp_u8("i"); __vp_assume(i >= s); __vp_expect_check_fail(); a[i] = 2; __vp_assert(false, "index past the size must fail"); }
VP_ENTRY(t05_over_cindex) { int s = __vp_concretize(__vp_range("s", 0, 3)); const SmallArray<int, 3> a(s, 1); uint8_t i = __vp_u8("i"); __vp_assume(i >= s); __vp_expect_check_fail(); (void)a[i]; __vp_assert(false, "index past the size must fail"); }
