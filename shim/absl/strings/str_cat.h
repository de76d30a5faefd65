#pragma once
// Formatting is outside most claims: messages are empty strings unless the
// harness asks for real concatenation (-DVP_STRCAT; no floating point).
#include <string>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
namespace absl {
struct Hex { template <class T> Hex(T, int = 0) {} }; struct Dec { template <class T> Dec(T, int = 0) {} };
enum PadSpec { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8 };
#ifdef VP_STRCAT
namespace vp_strcat {
struct Sink { std::string* s; void Append(string_view v) { s->append(v.data(), v.size()); } void Append(size_t n, char c) { s->append(n, c); } };
inline void Put(std::string* s, unsigned long v) { char b[24]; int n = 0; if (v <= 0xffffffffu) { unsigned w = static_cast<unsigned>(v); do { b[n++] = static_cast<char>('0' + w % 10); w /= 10; } while (w); } else do { b[n++] = static_cast<char>('0' + v % 10); v /= 10; } while (v); while (n) s->push_back(b[--n]); }
template <class T, class = void> struct Has : std::false_type {};
template <class T> struct Has<T, std::void_t<decltype(AbslStringify(std::declval<Sink&>(), std::declval<const T&>()))>> : std::true_type {};
template <class T> void Add(std::string* s, const T& v) {
  if constexpr (Has<T>::value) { Sink k{s}; AbslStringify(k, v); }
  else if constexpr (std::is_convertible_v<const T&, string_view>) { string_view w = v; s->append(w.data(), w.size()); }
  else if constexpr (std::is_same_v<T, char>) s->push_back(v);
  else if constexpr (std::is_integral_v<T>) { if (v < T(0)) { s->push_back('-'); Put(s, 0ul - static_cast<unsigned long>(v)); } else Put(s, static_cast<unsigned long>(v)); }
  else s->push_back('?');
}
}
struct AlphaNum { std::string s; template <class T> AlphaNum(const T& v) { vp_strcat::Add(&s, v); } };
template <class... A> inline std::string StrCat(const A&... a) { std::string s; (vp_strcat::Add(&s, a), ...); return s; }
template <class... A> inline void StrAppend(std::string* s, const A&... a) { (vp_strcat::Add(s, a), ...); }
#else
struct AlphaNum { template <class T> AlphaNum(const T&) {} };
template <class... A> inline std::string StrCat(const A&...) { return std::string(); }
template <class... A> inline void StrAppend(std::string*, const A&...) {}
#endif
}
