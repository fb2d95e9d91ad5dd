// Shim: attributes missing from the installed abseil 20220623.
#pragma once
#include_next "absl/base/attributes.h"
#ifndef ABSL_ATTRIBUTE_TRIVIAL_ABI
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#endif
#ifndef ABSL_ATTRIBUTE_VIEW
#define ABSL_ATTRIBUTE_VIEW
#endif
#ifndef ABSL_ATTRIBUTE_OWNER
#define ABSL_ATTRIBUTE_OWNER
#endif
#ifndef ABSL_NULLABILITY_COMPATIBLE
#define ABSL_NULLABILITY_COMPATIBLE
#endif
#ifndef ABSL_ATTRIBUTE_WARN_UNUSED
#define ABSL_ATTRIBUTE_WARN_UNUSED
#endif
