// Intrinsics understood by the symbolic executor; the native replay runtime
// (rt/native.cc) gives them concrete values read from a counterexample file.
#pragma once
#include <cstdint>
extern "C" {
bool __vp_bool(const char* name);
uint8_t __vp_u8(const char* name);
uint16_t __vp_u16(const char* name);
uint32_t __vp_u32(const char* name);
uint64_t __vp_u64(const char* name);
int32_t __vp_i32(const char* name);
int64_t __vp_i64(const char* name);
float __vp_f32(const char* name);
double __vp_f64(const char* name);
int32_t __vp_range(const char* name, int32_t lo, int32_t hi);
float __vp_f32_range(const char* name, float lo, float hi);
void __vp_assume(bool c);
void __vp_assert(bool c, const char* msg);
void __vp_reach(const char* label);
void __vp_expect_check_fail();
[[noreturn]] void __vp_check_failed(const char* what);
void __vp_merge_begin();
void __vp_merge_end();
uint64_t __vp_concretize(uint64_t v);
bool __vp_native();
bool __vp_same(float a, float b);
void __vp_print(const char* m, float v);
}
// Entry points run by check.py. VP_ENTRY_T only in the thorough tier.
#define VP_ENTRY(name) extern "C" __attribute__((noinline, used)) void name()
#define VP_ENTRY_T(name) VP_ENTRY(name)
namespace vp {
// a/2^shift with a in [lo,hi]: an exactly represented float grid value
inline float grid(const char* n, int lo, int hi, int shift = 0) {
  return static_cast<float>(__vp_range(n, lo, hi)) * (1.0f / static_cast<float>(1 << shift));
}
inline bool same(float a, float b) { return a == b || (a != a && b != b); }
template <class F> inline auto merged(F f) {
  __vp_merge_begin();
  auto r = f();
  __vp_merge_end();
  return r;
}
}  // namespace vp
