// SRC: ink/types/uri.cc
// FLAGS: -DVP_STRCAT
// BOUND: every string of up to 5 bytes (quick; 7 thorough), and every string obtained from well-formed templates by replacing one whole part by up to 5 arbitrary bytes (quick; 7 thorough), the asset type by 7 or 12 arbitrary bytes, the revision by up to 11 digits (formatting them back is checked for up to 3 symbolic digits)
// ASSUME: absl string and number helpers replaced by small reference implementations
#include <cstring>
#include <string>
#include "ink/types/uri.h"
#include "vp.h"
using ink::Uri;
namespace {
// Reference: the grammar of uri.h, read left to right.
struct Ref { bool ok; int reg, regn; int type; int name, namen; int rev; };
bool LowerOrHyphen(char c) { return ((c >= 'a') & (c <= 'z')) | (c == '-'); }
bool Digit(char c) { return (c >= '0') & (c <= '9'); }
char Lower(char c) { return (c >= 'A' && c <= 'Z') ? static_cast<char>(c + 32) : c; }
int Name(const char* s, int n, int& p) { int b = p; while (p < n && LowerOrHyphen(s[p])) ++p; return p - b; }
bool Lit(const char* s, int n, int& p, const char* lit, int m) {
  if (p + m > n) return false;
  bool eq = true; for (int i = 0; i < m; ++i) eq = eq & (s[p + i] == lit[i]);
  if (eq) p += m;
  return eq;
}
Ref Reference(const char* s, int n) {
  Ref r{false, 0, 0, 0, 0, 0, 0};
  if (n == 0) { r.ok = true; return r; }
  int p = 0;
  if (n >= 4 && ((Lower(s[0]) == 'i') & (Lower(s[1]) == 'n') & (Lower(s[2]) == 'k') & (s[3] == ':'))) p = 4;
  if (Lit(s, n, p, "//", 2)) { r.reg = p; r.regn = Name(s, n, p); if (r.regn == 0) return r; }
  if (!Lit(s, n, p, "/", 1)) return r;
  if (Lit(s, n, p, "texture:", 8)) r.type = 2;
  else if (Lit(s, n, p, "brush-family:", 13)) r.type = 1;
  else return r;
  r.name = p; r.namen = Name(s, n, p); if (r.namen == 0) return r;
  r.rev = 1;
  if (p < n) {
    if (s[p] != ':') return r;
    ++p;
    int d = n - p; if (d < 1 || d > 9) return r;
    bool ok = s[p] != '0'; uint64_t v = 0;
    for (int i = 0; i < d; ++i) { ok = ok & Digit(s[p + i]); v = v * 10 + static_cast<uint64_t>(s[p + i] - '0'); if (!ok) return r; }
    r.rev = static_cast<int>(v);
  }
  r.ok = true;
  return r;
}
void Check(const char* s, int n, bool roundtrip = true) {
  // An exact-size heap copy: reading one byte past either end is caught.
  char* b = new char[n]; for (int i = 0; i < n; ++i) b[i] = s[i];
  Ref r = Reference(s, n);
  absl::StatusOr<Uri> u = Uri::Parse(absl::string_view(b, n));
  __vp_assert(u.ok() == r.ok, "accepted exactly when the string matches the documented grammar");
  if (r.ok) {
    __vp_assert((int)u->GetAssetType() == r.type, "asset type");
    __vp_assert(u->GetRevisionNumber() == r.rev, "revision");
    if (n == 0) __vp_assert(u->GetRegName().empty(), "reg-name of the empty uri");
    else if (r.regn) __vp_assert(u->GetRegName() == absl::string_view(s + r.reg, r.regn), "reg-name");
    else __vp_assert(u->GetRegName() == "ink", "default reg-name");
    __vp_assert(u->GetAssetName() == absl::string_view(s + r.name, r.namen), "asset name");
    __vp_assert(u->HasInkRegName() == (n != 0 && (r.regn == 0 || absl::string_view(s + r.reg, r.regn) == "ink")), "HasInkRegName");
    __vp_reach("accepted");
    if (!roundtrip) { delete[] b; return; }
    std::string norm = u->ToNormalizedString();
    absl::StatusOr<Uri> again = Uri::Parse(norm);
    __vp_assert(again.ok(), "normalized form parses");
    if (again.ok()) __vp_assert(*again == *u && !(*again != *u), "normalized form parses to an equal uri");
    if (n > 0) __vp_assert(norm[0] == '/' && (int)norm.size() <= n, "normalized form omits the scheme and is never longer");
    if (again.ok()) __vp_assert(again->ToNormalizedString() == norm, "normalizing is idempotent");
  } else if (n > 0) __vp_reach("rejected");
  delete[] b;
}
void Template(const char* pre, int kmin, int kmax, const char* post) {
  char s[64]; int n = 0;
  for (const char* p = pre; *p; ++p) s[n++] = *p;
  int k = __vp_concretize(__vp_range("k", kmin, kmax));
  for (int i = 0; i < k; ++i) s[n++] = static_cast<char>(__vp_u8("c"));
  for (const char* p = post; *p; ++p) s[n++] = *p;
  Check(s, n);
}
void Digits(const char* pre, int kmin, int kmax, const char* post, bool roundtrip) {
  char s[64]; int n = 0;
  for (const char* p = pre; *p; ++p) s[n++] = *p;
  int k = __vp_concretize(__vp_range("k", kmin, kmax));
  for (int i = 0; i < k; ++i) s[n++] = static_cast<char>(__vp_range("d", '0', '9'));
  for (const char* p = post; *p; ++p) s[n++] = *p;
  Check(s, n, roundtrip);
}
}  // namespace
VP_ENTRY(t03_any) { Template("", 0, 4, ""); }
VP_ENTRY(t03_scheme) { Template("", 4, 4, "/texture:a"); }
VP_ENTRY(t03_slash_reg) { Template("//", 0, 4, "/brush-family:a-b"); }
VP_ENTRY(t03_reg_schemed) { Template("INK:/", 1, 4, "/texture:a"); }
VP_ENTRY(t03_type7) { Template("/", 7, 7, ":a"); }
VP_ENTRY(t03_type12a) { Template("ink:/", 6, 6, "family:a"); }
VP_ENTRY(t03_type12b) { Template("ink:/brush-", 6, 6, ":a"); }
VP_ENTRY_T(t03_type12) { Template("ink:/", 12, 12, ":a"); }
VP_ENTRY(t03_type_sep) { Template("/texture", 0, 3, "x"); }
VP_ENTRY(t03_name) { Template("/texture:", 0, 4, ""); }
VP_ENTRY(t03_name_rev) { Template("//ink/brush-family:", 0, 3, ":12"); }
VP_ENTRY(t03_rev) { Template("/texture:a:", 0, 4, ""); }
VP_ENTRY(t03_rev_nines) { Digits("//r/texture:n:9999", 3, 7, "", false); }
VP_ENTRY_T(t03_rev_digits) { Digits("//r/texture:n:", 1, 11, "", false); }
VP_ENTRY(t03_rev_round) { Digits("//r/texture:n:", 1, 3, "", true); }
VP_ENTRY(t03_rev_long) { Digits("/texture:n:98", 1, 3, "76543", true); }
VP_ENTRY(t03_suffix) { Template("iNk://r-r/texture:z:123456789", 0, 2, ""); }
VP_ENTRY_T(t03_any_t) { Template("", 5, 7, ""); }
VP_ENTRY_T(t03_reg_t) { Template("//", 5, 7, "/texture:a"); }
VP_ENTRY_T(t03_name_t) { Template("/texture:", 5, 7, ""); }
VP_ENTRY_T(t03_rev_t) { Template("/texture:a:", 5, 7, ""); }
VP_ENTRY_T(t03_schemed_t) { Template("", 4, 4, "//a/brush-family:b:3"); }
VP_ENTRY(t03_equality) {
  // Uris parsed from two strings differing in one part are equal exactly when the parts are.
  char a[] = "//xx/texture:yy:2z", b[] = "//xx/texture:yy:2z";
  auto low = [](const char* n) { char c = (char)__vp_u8(n); __vp_assume((c >= 'a') & (c <= 'z')); return c; };
  auto dig = [](const char* n) { return (char)__vp_range(n, '0', '9'); };
  a[2] = low("r1"); b[2] = low("r2"); a[13] = low("n1"); b[13] = low("n2"); a[17] = dig("d1"); b[17] = dig("d2");
  auto u = Uri::Parse(absl::string_view(a, 18)), v = Uri::Parse(absl::string_view(b, 18));
  __vp_assert(u.ok() && v.ok(), "parse");
  bool same = (a[2] == b[2]) & (a[13] == b[13]) & (a[17] == b[17]);
  __vp_assert((*u == *v) == same, "equality"); __vp_assert((*u != *v) != same, "inequality");
  auto t = Uri::Parse("/texture:yy:2"), f = Uri::Parse("/brush-family:yy:2");
  __vp_assert(*t != *f, "asset types are compared");
  __vp_reach("end");
}
