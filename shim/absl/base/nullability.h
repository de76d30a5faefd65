#pragma once
namespace absl { template <class T> using Nonnull = T; template <class T> using Nullable = T; template <class T> using NullabilityUnknown = T; }
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#define ABSL_POINTERS_DEFAULT_NONNULL
