#pragma once
#include "vp.h"
namespace vp_internal { struct Sink { template <class T> const Sink& operator<<(const T&) const { return *this; } }; struct Voidify { void operator&(const Sink&) const {} };
[[noreturn]] inline void CheckFailed(const char* w) { __vp_check_failed(w); } struct Fail { const char* w; ~Fail() { __vp_check_failed(w); } template <class T> const Fail& operator<<(const T&) const { return *this; } }; struct VoidifyF { void operator&(const Fail&) const {} };
template <class T> T&& CheckNotNull(T&& t) { if (t == nullptr) __vp_check_failed("QCHECK_NOTNULL"); return static_cast<T&&>(t);} }
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define ABSL_CHECK(c) (c) ? (void)0 : ::vp_internal::VoidifyF() & ::vp_internal::Fail{"CHECK(" #c ")"}
#define ABSL_CHECK_OP_(a, op, b) ABSL_CHECK((a) op (b))
#define ABSL_CHECK_EQ(a, b) ABSL_CHECK_OP_(a, ==, b)
#define ABSL_CHECK_NE(a, b) ABSL_CHECK_OP_(a, !=, b)
#define ABSL_CHECK_LT(a, b) ABSL_CHECK_OP_(a, <, b)
#define ABSL_CHECK_LE(a, b) ABSL_CHECK_OP_(a, <=, b)
#define ABSL_CHECK_GT(a, b) ABSL_CHECK_OP_(a, >, b)
#define ABSL_CHECK_GE(a, b) ABSL_CHECK_OP_(a, >=, b)
#define ABSL_CHECK_OK(s) ABSL_CHECK((s).ok())
#define ABSL_QCHECK ABSL_CHECK
#define ABSL_DCHECK ABSL_CHECK
#define ABSL_DCHECK_EQ ABSL_CHECK_EQ
#define ABSL_DCHECK_NE ABSL_CHECK_NE
#define ABSL_DCHECK_LT ABSL_CHECK_LT
#define ABSL_DCHECK_LE ABSL_CHECK_LE
#define ABSL_DCHECK_GT ABSL_CHECK_GT
#define ABSL_DCHECK_GE ABSL_CHECK_GE
#define ABSL_DCHECK_OK ABSL_CHECK_OK
#define ABSL_DIE_IF_NULL(x) ::vp_internal::CheckNotNull(x)
