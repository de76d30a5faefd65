// BOUND: arrays of 6 symbolic integers and every sub-range; vectors and lists up to 4 elements; a multimap of 3 entries with symbolic keys
#include <array>
#include <list>
#include <vector>
#include <deque>
#include <forward_list>
#include <map>
#include <utility>
#include "ink/types/iterator_range.h"
#include "vp.h"
using ink::make_range;
namespace {
template <class R, class It> void Expect(const R& r, It b, It e, const int* v, int n) {
  __vp_assert(r.begin() == b && r.end() == e, "end points are the ones given");
  __vp_assert(r.empty() == (n == 0), "empty exactly when begin == end");
  int k = 0;
  for (const int& x : r) { __vp_assert(k < n, "no extra elements"); __vp_assert(x == v[k], "elements in order"); ++k; }
  __vp_assert(k == n, "all elements visited");
}
}
VP_ENTRY(t06_array) {
  int a[6]; for (int i = 0; i < 6; ++i) a[i] = __vp_i32("e");
  int lo = __vp_concretize(__vp_range("lo", 0, 6)), hi = __vp_concretize(__vp_range("hi", 0, 6));
  __vp_assume(lo <= hi);
  auto r = make_range(a + lo, a + hi);
  Expect(r, a + lo, a + hi, a + lo, hi - lo);
  __vp_assert(r.size() == (size_t)(hi - lo), "size");
  auto p = make_range(std::pair<int*, int*>(a + lo, a + hi));
  Expect(p, a + lo, a + hi, a + lo, hi - lo);
  __vp_assert(p.size() == (size_t)(hi - lo), "size");
  ink::iterator_range<const int*> c(a + lo, a + hi);
  Expect(c, (const int*)a + lo, (const int*)a + hi, a + lo, hi - lo);
  auto copy = r; Expect(copy, a + lo, a + hi, a + lo, hi - lo);
  r = make_range(a, a); __vp_assert(r.empty() && r.size() == 0 && copy.size() == (size_t)(hi - lo), "assignment replaces both ends");
  __vp_reach("end");
}
VP_ENTRY(t06_symbolic) {
  int a[8] = {0, 1, 2, 3, 4, 5, 6, 7};
  int lo = __vp_range("lo", 0, 8), hi = __vp_range("hi", 0, 8); __vp_assume(lo <= hi);
  auto r = make_range(a + lo, a + hi);
  __vp_assert(r.size() == (size_t)(hi - lo), "size");
  __vp_assert(r.empty() == (hi == lo), "empty");
  if (lo < hi) { __vp_assert(*r.begin() == lo, "first"); __vp_assert(*(r.end() - 1) == hi - 1, "last"); __vp_reach("nonempty"); }
  else __vp_reach("empty");
}
VP_ENTRY(t06_default) {
  ink::iterator_range<int*> r; ink::iterator_range<std::vector<int>::iterator> s;
  __vp_assert(r.empty() && r.size() == 0 && r.begin() == r.end(), "default range is empty");
  __vp_assert(s.empty() && s.size() == 0, "default range is empty");
  __vp_reach("end");
}
VP_ENTRY(t06_containers) {
  int n = __vp_concretize(__vp_range("n", 0, 4)); int v[4];
  std::vector<int> vec; std::list<int> list; std::deque<int> dq; std::forward_list<int> fl;
  for (int i = 0; i < n; ++i) { v[i] = __vp_i32("e"); vec.push_back(v[i]); list.push_back(v[i]); dq.push_back(v[i]); }
  for (int i = n; i-- > 0;) fl.push_front(v[i]);
  auto r = make_range(vec.begin(), vec.end()); Expect(r, vec.begin(), vec.end(), v, n); __vp_assert(r.size() == (size_t)n, "size");
  auto rd = make_range(dq.cbegin(), dq.cend()); Expect(rd, dq.cbegin(), dq.cend(), v, n); __vp_assert(rd.size() == (size_t)n, "size");
  Expect(make_range(list.begin(), list.end()), list.begin(), list.end(), v, n);
  Expect(make_range(std::make_pair(fl.begin(), fl.end())), fl.begin(), fl.end(), v, n);
  int rv[4]; for (int i = 0; i < n; ++i) rv[i] = v[n - 1 - i];
  Expect(make_range(vec.rbegin(), vec.rend()), vec.rbegin(), vec.rend(), rv, n);
  if (n >= 2) { auto b = list.begin(); ++b; Expect(make_range(b, list.end()), b, list.end(), v + 1, n - 1); __vp_reach("sub"); }
  __vp_reach("end");
}
// Move-only state in the iterator must be forwarded intact through both forms.
namespace {
struct Owning {  // an iterator whose moved-from state is detectable
  using iterator_category = std::input_iterator_tag; using value_type = int; using difference_type = long; using pointer = const int*; using reference = const int&;
  std::vector<int> data; size_t i = 0;
  const int& operator*() const { return data[i]; }
  Owning& operator++() { ++i; return *this; }
  bool operator==(const Owning& o) const { return i == o.i && data == o.data; }
  bool operator!=(const Owning& o) const { return !(*this == o); }
};
}
VP_ENTRY(t06_forwarding) {
  int x = __vp_i32("x"), y = __vp_i32("y"); int v[2] = {x, y};
  Owning b, e; b.data = {x, y}; e.data = {x, y}; e.i = 2;
  auto r = make_range(b, e); Expect(r, b, e, v, 2);
  auto p = make_range(std::pair<Owning, Owning>(b, e)); Expect(p, b, e, v, 2);
  auto q = make_range(b, b); __vp_assert(q.empty(), "empty");
  __vp_reach("end");
}
VP_ENTRY(t06_multimap) {
  std::multimap<int, int> m; int k[3], n = 0, v[3];
  for (int i = 0; i < 3; ++i) { k[i] = __vp_range("k", 0, 3); m.insert({k[i], i}); }
  int q = __vp_range("q", 0, 3);
  for (int i = 0; i < 3; ++i) if (k[i] == q) v[n++] = i;
  auto r = make_range(m.equal_range(q)); int c = 0;
  for (const auto& e : r) { __vp_assert(c < n && e.first == q && e.second == v[c], "entries with the key, in insertion order"); ++c; }
  __vp_assert(c == n && r.empty() == (n == 0), "all of them");
  if (n == 0) __vp_reach("none"); if (n == 3) __vp_reach("all");
}
