#pragma once
#include "absl/log/check.h"
#define ABSL_DIE_IF_NULL(x) ::vp_shim::NotNull(x)
