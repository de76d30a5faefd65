#pragma once
#include "absl/log/absl_check.h"
#define VP_LOG_INFO ::vp_internal::Voidify() & ::vp_internal::Sink()
#define VP_LOG_WARNING ::vp_internal::Voidify() & ::vp_internal::Sink()
#define VP_LOG_ERROR ::vp_internal::Voidify() & ::vp_internal::Sink()
#define VP_LOG_DFATAL ::vp_internal::VoidifyF() & ::vp_internal::Fail{"LOG(DFATAL)"}
#define VP_LOG_FATAL ::vp_internal::VoidifyF() & ::vp_internal::Fail{"LOG(FATAL)"}
#define ABSL_LOG(s) VP_LOG_##s
#define ABSL_LOG_IF(s, c) !(c) ? (void)0 : VP_LOG_##s
#define ABSL_LOG_EVERY_N(s, n) VP_LOG_##s
#define ABSL_LOG_EVERY_N_SEC(s, n) VP_LOG_##s
#define ABSL_LOG_FIRST_N(s, n) VP_LOG_##s
#define ABSL_DLOG(s) VP_LOG_##s
#define ABSL_VLOG(n) ::vp_internal::Voidify() & ::vp_internal::Sink()
