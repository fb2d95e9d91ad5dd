// Shim for absl LOG.
#pragma once
#include "absl/log/check.h"
#define VP_LOG_INFO ::vp_shim::NullStream()
#define VP_LOG_WARNING ::vp_shim::NullStream()
#define VP_LOG_ERROR ::vp_shim::NullStream()
#define VP_LOG_FATAL ::vp_shim::Fail::die()
#define VP_LOG_DFATAL ::vp_shim::NullStream()
#define LOG(s) VP_LOG_##s
#define DLOG(s) VP_LOG_##s
#define VLOG(n) ::vp_shim::NullStream()
#define LOG_FIRST_N(s,n) VP_LOG_##s
#define LOG_EVERY_N_SEC(s,n) VP_LOG_##s
