#pragma once
#ifndef absl_nonnull
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#endif
#define ABSL_POINTERS_DEFAULT_NONNULL
namespace absl {
template <class T> using Nonnull = T;
template <class T> using Nullable = T;
}
