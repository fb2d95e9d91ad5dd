// Shim: header missing from the installed abseil 20220623 (annotations only).
#pragma once
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#define ABSL_POINTERS_DEFAULT_NONNULL
