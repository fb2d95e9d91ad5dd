// Shim for absl/status/status_macros.h: RETURN_IF_ERROR, ASSIGN_OR_RETURN.
#pragma once
#include <string>
#include <sstream>
#include <utility>
#include "absl/base/optimization.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/types/source_location.h"
namespace absl {
class StatusBuilder {
 public:
  explicit StatusBuilder(Status s) : s_(std::move(s)) {}
  bool ok() const { return s_.ok(); }
  SourceLocation source_location() const { return {}; }
  template <class T> StatusBuilder& operator<<(const T& t) & { (void)t; return *this; }
  template <class T> StatusBuilder&& operator<<(const T& t) && { (void)t; return std::move(*this); }
  template <class F> auto With(F&& f) && { return std::forward<F>(f)(std::move(*this)); }
  template <class F> auto With(F&& f) & { return std::forward<F>(f)(*this); }
  operator Status() const& { return s_; }
  template <class T> StatusBuilder& SetPrepend() { return *this; }
  operator Status() && { return std::move(s_); }
  template <class T> operator StatusOr<T>() const& { return StatusOr<T>(s_); }
  template <class T> operator StatusOr<T>() && { return StatusOr<T>(std::move(s_)); }
 private:
  Status s_;
};
namespace vp_shim_status {
inline const Status& ToStatus(const Status& s) { return s; }
inline Status ToStatus(Status&& s) { return std::move(s); }
inline Status ToStatus(StatusBuilder s) { return Status(std::move(s)); }
}
}
#define VP_CAT2(a,b) a##b
#define VP_CAT(a,b) VP_CAT2(a,b)
#define RETURN_IF_ERROR(expr)                                              \
  if (::absl::Status vp_st = ::absl::vp_shim_status::ToStatus(expr); ABSL_PREDICT_TRUE(vp_st.ok())) { \
  } else                                                                   \
    return ::absl::StatusBuilder(std::move(vp_st))
#define VP_AOR_GET(a,b,c,d,...) d
#define ASSIGN_OR_RETURN(...) VP_AOR_GET(__VA_ARGS__, VP_AOR3, VP_AOR2, )(VP_CAT(vp_sor_, __COUNTER__), __VA_ARGS__)
#define VP_UNPAREN(...) VP_UNP_(VP_UNP1 __VA_ARGS__)
#define VP_UNP1(...) VP_UNP1 __VA_ARGS__
#define VP_UNP_(...) VP_UNP__(__VA_ARGS__)
#define VP_UNP__(...) VP_UNPVAN##__VA_ARGS__
#define VP_UNPVANVP_UNP1
#define VP_AOR2(v, lhs, rexpr) VP_AOR3(v, lhs, rexpr, _)
#define VP_AOR3(v, lhs, rexpr, err)                                        \
  auto v = (rexpr);                                                        \
  if (ABSL_PREDICT_FALSE(!v.ok())) {                                       \
    ::absl::StatusBuilder _(std::move(v).status());                        \
    (void)_;                                                               \
    return err;                                                            \
  }                                                                        \
  VP_UNPAREN(lhs) = *std::move(v)
