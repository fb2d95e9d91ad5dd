// Shim for absl CHECK/DCHECK. Under the verifier (VP_VERIFY) a failing check is
// a call to a noreturn marker that has to be proved unreachable.
#pragma once
#include <cstdlib>
#include <ostream>
#include <utility>
#ifdef VP_VERIFY
extern "C" [[noreturn]] void __vp_check_fail();
#define VP_CHECK_FAIL() __vp_check_fail()
#else
#define VP_CHECK_FAIL() ::abort()
#endif
namespace vp_shim {
struct NullStream {
  template <class T> NullStream& operator<<(const T&) { return *this; }
  NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
struct Voidify { void operator&&(NullStream&) const {} void operator&&(NullStream&&) const {} };
struct Fail { [[noreturn]] static NullStream die() { VP_CHECK_FAIL(); } };
template <class T> T&& NotNull(T&& t) { if (t == nullptr) VP_CHECK_FAIL(); return std::forward<T>(t); }
}  // namespace vp_shim
#define VP_CHECK_IMPL(c) (c) ? (void)0 : ::vp_shim::Voidify() && ::vp_shim::Fail::die()
#define CHECK(c) VP_CHECK_IMPL(static_cast<bool>((c)))
#define CHECK_OP(op,a,b) VP_CHECK_IMPL(((a) op (b)))
#define CHECK_EQ(a,b) CHECK_OP(==,a,b)
#define CHECK_NE(a,b) CHECK_OP(!=,a,b)
#define CHECK_LE(a,b) CHECK_OP(<=,a,b)
#define CHECK_LT(a,b) CHECK_OP(<,a,b)
#define CHECK_GE(a,b) CHECK_OP(>=,a,b)
#define CHECK_GT(a,b) CHECK_OP(>,a,b)
#define CHECK_OK(e) VP_CHECK_IMPL(::vp_shim_ok(e))
template <class T> bool vp_shim_ok(const T& t) { return t.ok(); }
#if (defined(VP_VERIFY) || !defined(NDEBUG)) && !defined(VP_NODCHECK)
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LE CHECK_LE
#define DCHECK_LT CHECK_LT
#define DCHECK_GE CHECK_GE
#define DCHECK_GT CHECK_GT
#define DCHECK_OK CHECK_OK
#else
#define VP_NOCHECK(c) while (false && (c)) ::vp_shim::NullStream()
#define DCHECK(c) VP_NOCHECK(static_cast<bool>((c)))
#define DCHECK_EQ(a,b) VP_NOCHECK((a)==(b))
#define DCHECK_NE(a,b) VP_NOCHECK((a)!=(b))
#define DCHECK_LE(a,b) VP_NOCHECK((a)<=(b))
#define DCHECK_LT(a,b) VP_NOCHECK((a)<(b))
#define DCHECK_GE(a,b) VP_NOCHECK((a)>=(b))
#define DCHECK_GT(a,b) VP_NOCHECK((a)>(b))
#define DCHECK_OK(e) VP_NOCHECK((e).ok())
#endif
