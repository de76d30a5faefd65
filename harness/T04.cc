// BOUND: 3 handles, any start state, then every sequence of 2 operations (quick) or 3 (thorough) out of copy/move assignment and construction, swap, reset, emplace and mutable access; stored values are symbolic 32-bit integers
#include <utility>
#include "ink/types/internal/copy_on_write.h"
#include "vp.h"
namespace {
int live = 0;
struct Val {
  int v;
  int w = 7;
  explicit Val(int x) : v(x) { ++live; }
  Val(const Val& o) : v(o.v), w(o.w) { ++live; }
  Val(Val&& o) : v(o.v), w(o.w) { o.v = -1; ++live; }
  Val& operator=(const Val&) = default;
  ~Val() { --live; v = -2; }
};
using Cow = ink_internal::CopyOnWrite<Val>;
constexpr int kH = 3;
// The model: each handle is empty (group 0) or holds a value, and handles of
// one group are copies of each other with no mutation in between.
struct Model { int group[kH] = {0, 0, 0}; int val[kH] = {0, 0, 0}; int next = 1; };
int InGroup(const Model& m, int g) { int n = 0; for (int i = 0; i < kH; ++i) n += m.group[i] == g; return n; }
void Check(Cow* h, const Model& m) {
  int groups = 0;
  for (int i = 0; i < kH; ++i) {
    __vp_assert(h[i].HasValue() == (m.group[i] != 0), "HasValue");
    __vp_assert(h[i].IsShared() == (m.group[i] != 0 && InGroup(m, m.group[i]) > 1), "IsShared");
    bool first = m.group[i] != 0;
    for (int j = 0; j < i; ++j) if (m.group[j] == m.group[i]) first = false;
    groups += first;
    if (m.group[i] == 0) continue;
    const Cow& c = h[i];
    __vp_assert(c.Value().v == m.val[i] && c->v == m.val[i] && (*c).v == m.val[i] && c.Value().w == 7, "reads its own value");
    for (int j = 0; j < kH; ++j)
      if (m.group[j] == m.group[i]) __vp_assert(&h[j].Value() == &c.Value(), "untouched copies share storage");
      else if (m.group[j]) __vp_assert(&h[j].Value() != &c.Value(), "distinct values have distinct storage");
  }
  __vp_assert(live == groups, "one stored object per distinct value");
}
void Step(Cow* h, Model& m) {
  int op = __vp_concretize(__vp_range("op", 0, 7));
  int i = __vp_concretize(__vp_range("i", 0, kH - 1));
  int j = op <= 3 ? (int)__vp_concretize(__vp_range("j", 0, kH - 1)) : 0;
  int v = __vp_i32("v");
  switch (op) {
    case 0: { Cow* r = &(h[i] = h[j]); __vp_assert(r == &h[i], "copy assignment returns self"); m.group[i] = m.group[j]; m.val[i] = m.val[j]; break; }
    case 1:
      if (i == j) return;
      h[i] = std::move(h[j]);
      m.group[i] = m.group[j]; m.val[i] = m.val[j]; m.group[j] = 0; break;
    case 2: { // a temporary copy does not disturb either
      Cow t(h[j]); h[i] = std::move(t);
      __vp_assert(!t.HasValue() && !t.IsShared(), "moved-from handle is empty");
      m.group[i] = m.group[j]; m.val[i] = m.val[j]; break; }
    case 3: { std::swap(h[i], h[j]); std::swap(m.group[i], m.group[j]); std::swap(m.val[i], m.val[j]); break; }
    case 4: h[i].Reset(); m.group[i] = 0; break;
    case 5: { Val& r = h[i].Emplace(v); m.group[i] = m.next++; m.val[i] = v;
      __vp_assert(r.v == v && &r == &h[i].Value(), "Emplace returns the stored object"); break; }
    case 6: {
      if (m.group[i] == 0) return;
      bool shared = InGroup(m, m.group[i]) > 1;
      const Val* before = &h[i].Value();
      Val& r = h[i].MutableValue();
      if (shared) m.group[i] = m.next++;
      else __vp_assert(&r == before, "sole owner is not copied");
      r.v = v; m.val[i] = v; break; }
    case 7: {
      Val t(v);
      if (__vp_bool("rvalue")) h[i] = Cow(std::move(t)); else { h[i] = Cow(t); __vp_assert(t.v == v, "source value untouched"); }
      m.group[i] = m.next++; m.val[i] = v; break; }
  }
}
void Start(Cow* h, Model& m) {
  for (int i = 0; i < kH; ++i) {
    int k = __vp_concretize(__vp_range("start", 0, 1 + i));
    if (k == 0) continue;
    if (k == 1) { int v = __vp_i32("v0"); h[i] = Cow(Val(v)); m.group[i] = m.next++; m.val[i] = v; }
    else { h[i] = h[k - 2]; m.group[i] = m.group[k - 2]; m.val[i] = m.val[k - 2]; }
  }
}
void Run(int steps) {
  {
    Cow h[kH]; Model m;
    Start(h, m); Check(h, m);
    for (int s = 0; s < steps; ++s) { Step(h, m); Check(h, m); }
  }
  __vp_assert(live == 0, "everything released");
  __vp_reach("end");
}
}  // namespace
VP_ENTRY(t04_ops2) { Run(2); }
VP_ENTRY_T(t04_ops3) { Run(3); }
// Nested handles reached through a mutable value stay independent as well.
VP_ENTRY(t04_nested) {
  using Outer = ink_internal::CopyOnWrite<Cow>;
  int a = __vp_i32("a"), b = __vp_i32("b");
  { Outer x; x.Emplace(Val(a)); Outer y = x;
    y.MutableValue().MutableValue().v = b;
    __vp_assert(x.Value().Value().v == a && y.Value().Value().v == b, "nested independence"); }
  __vp_assert(live == 0, "released");
  __vp_reach("end");
}
VP_ENTRY(t04_empty_value) { Cow c; if (__vp_bool("m")) { c.Emplace(1); c.Reset(); } __vp_expect_check_fail(); (void)c.Value().v; __vp_assert(false, "Value() of an empty handle must fail"); }
VP_ENTRY(t04_empty_mutable) { Cow c; if (__vp_bool("m")) { Cow d(Val(3)); c = d; Cow e = std::move(c); __vp_assert(e.HasValue(), "moved"); } __vp_expect_check_fail(); c.MutableValue().v = 1; __vp_assert(false, "MutableValue() of an empty handle must fail"); }
