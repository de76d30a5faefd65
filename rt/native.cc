// Replay runtime: reads the values of a counterexample and runs one entry.
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <utility>
#include <unistd.h>
#include "vp.h"
static std::vector<std::pair<std::string, unsigned long long>> g; static size_t pos = 0; static bool expect_fail = false;
static unsigned long long next(const char* n) { if (pos >= g.size()) { return 0; } if (g[pos].first != n) { fprintf(stderr, "VP-MISMATCH input %zu: expected %s got %s\n", pos, g[pos].first.c_str(), n); } return g[pos++].second; }
extern "C" {
bool __vp_bool(const char* n) { return next(n) & 1; }
uint8_t __vp_u8(const char* n) { return next(n); }
uint16_t __vp_u16(const char* n) { return next(n); }
uint32_t __vp_u32(const char* n) { return next(n); }
uint64_t __vp_u64(const char* n) { return next(n); }
int32_t __vp_i32(const char* n) { return next(n); }
int64_t __vp_i64(const char* n) { return next(n); }
float __vp_f32(const char* n) { uint32_t v = next(n); float f; memcpy(&f, &v, 4); return f; }
double __vp_f64(const char* n) { uint64_t v = next(n); double f; memcpy(&f, &v, 8); return f; }
int32_t __vp_range(const char* n, int32_t lo, int32_t hi) { int32_t v = (int32_t)next(n); if (v < lo || v > hi) { printf("VP-RANGE %s\n", n); fflush(stdout); _exit(78); } return v; }
float __vp_f32_range(const char* n, float lo, float hi) { float f = __vp_f32(n); if (!(f >= lo && f <= hi)) { printf("VP-RANGE %s\n", n); fflush(stdout); _exit(78); } return f; }
void __vp_assume(bool c) { if (!c) { printf("VP-ASSUME\n"); fflush(stdout); _exit(78); } }
void __vp_assert(bool c, const char* m) { if (!c) { printf("VP-VIOLATED assertion: %s\n", m); fflush(stdout); _exit(77); } }
void __vp_reach(const char*) {}
void __vp_expect_check_fail() { expect_fail = true; }
void __vp_check_failed(const char* w) { if (expect_fail) _exit(0); printf("VP-VIOLATED CHECK failed: %s\n", w); fflush(stdout); _exit(77); }
void __vp_merge_begin() {}
void __vp_merge_end() {}
uint64_t __vp_concretize(uint64_t v) { return v; }
bool __vp_native() { return true; }
bool __vp_same(float a, float b) { if (a != a || b != b) return a != a && b != b; return memcmp(&a, &b, 4) == 0; }
void __vp_print(const char* m, float v) { printf("[print] %s %.9g\n", m, v); }
}
int main(int argc, char** argv) {
  FILE* f = fopen(argv[2], "r"); char n[256]; unsigned long long v;
  while (f && fscanf(f, "%255s %llx", n, &v) == 2) g.push_back({n, v});
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { printf("no entry\n"); return 3; }
  fn(); printf("VP-OK\n"); return 0;
}
