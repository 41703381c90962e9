#pragma once
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
namespace absl { template <class T> using Nonnull = T; template <class T> using Nullable = T; }
#define ABSL_POINTERS_DEFAULT_NONNULL
