// Contracts for qexpr/operators/core/logic_operators.h, bool/logic.h, bool/comparison.h, memory/optional_value.h
#include "vp.h"
#include "models.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/operators/bool/comparison.h"
#include "arolla/qexpr/operators/bool/logic.h"
#include "arolla/qexpr/operators/core/logic_operators.h"
using namespace arolla;

// An optional whose value is arbitrary even when it is missing.
template <class T> static OptionalValue<T> opt(const char* v, const char* p) {
  OptionalValue<T> r(vp_any<T>(v));
  r.present = vp_any<bool>(p);
  return r;
}
template <class T> static bool bits_equal(T a, T b) { return __builtin_memcmp(&a, &b, sizeof(T)) == 0; }
template <> bool bits_equal(float a, float b) { return __builtin_bit_cast(uint32_t, a) == __builtin_bit_cast(uint32_t, b); }
template <> bool bits_equal(double a, double b) { return __builtin_bit_cast(uint64_t, a) == __builtin_bit_cast(uint64_t, b); }
template <> bool bits_equal(int32_t a, int32_t b) { return a == b; }
template <> bool bits_equal(int64_t a, int64_t b) { return a == b; }
template <> bool bits_equal(bool a, bool b) { return a == b; }
// r is `present ? v : missing`
template <class T> static bool is(const OptionalValue<T>& r, bool present, T v) {
  return r.present == present && (!present || bits_equal(r.value, v));
}
template <class T> static bool same(const OptionalValue<T>& r, const OptionalValue<T>& v) { return is(r, v.present, v.value); }

template <class T> static void presence() {
  auto a = opt<T>("a", "a?"), b = opt<T>("b", "b?"), c = opt<T>("c", "c?");
  OptionalUnit u(vp_any<bool>("u"));
  T x = vp_any<T>("x"), y = vp_any<T>("y");
  vp_assert(HasOp()(a).present == a.present, "has: presence of the argument");
  vp_assert(PresenceNotOp()(a).present == !a.present, "not: presence inverted");
  vp_assert(same(PresenceOrOp()(a, b), a.present ? a : b), "or: the first present value");
  vp_assert(bits_equal(PresenceOrOp()(a, x), a.present ? a.value : x), "or with a full default");
  vp_assert(bits_equal(PresenceOrOp()(x, a), x) && bits_equal(PresenceOrOp()(x, y), x), "or of a full value is that value");
  vp_assert(same(PresenceAndOp()(a, u), u.present ? a : OptionalValue<T>{}), "and: the first value only if the second is present");
  vp_assert(is(PresenceAndOp()(x, u), u.present, x), "and with a full value");
  vp_assert(bits_equal(PresenceAndOp()(x, Unit{}), x), "and with a present condition");
  vp_assert(bits_equal(WhereOp()(u, x, y), u.present ? x : y), "where selects by presence");
  vp_assert(same(WhereOp()(u, a, b), u.present ? a : b), "where selects by presence");
  vp_assert(same(PresenceAndOrOp()(a, u, c), u.present && a.present ? a : c), "(a & b) | c");
  vp_assert(bits_equal(PresenceAndOrOp()(a, u, x), u.present && a.present ? a.value : x), "(a & b) | c with a full c");
  vp_assert(u.present ? is(PresenceAndOrOp()(x, u, c), true, x) : same(PresenceAndOrOp()(x, u, c), c), "(a & b) | c with a full a");
  vp_assert(bits_equal(PresenceAndOrOp()(x, u, y), u.present ? x : y), "(a & b) | c with full a and c");
}
VP_CONTRACT(presence_int32) { presence<int32_t>(); }
VP_CONTRACT(presence_int64) { presence<int64_t>(); }
VP_CONTRACT(presence_float) { presence<float>(); }
VP_CONTRACT(presence_double) { presence<double>(); }
VP_CONTRACT(presence_bool) { presence<bool>(); }

// Branches given as functions: the unselected one is not evaluated.
template <class T> static void lazy() {
  auto a = opt<T>("a", "a?"), b = opt<T>("b", "b?");
  OptionalUnit u(vp_any<bool>("u"));
  T x = vp_any<T>("x"), y = vp_any<T>("y");
  int na = 0, nb = 0;
  auto fa = [&] { ++na; return a; };
  auto fb = [&] { ++nb; return b; };
  auto fy = [&] { ++nb; return y; };
  auto fx = [&] { ++na; return x; };
  vp_assert(same(WhereOp()(u, fa, fb), u.present ? a : b), "where of functions selects by presence");
  vp_assert(na == u.present && nb == !u.present, "only the selected branch is evaluated");
  na = nb = 0;
  vp_assert(same(WhereOp()(u, fa, b), u.present ? a : b) && same(WhereOp()(u, a, fb), u.present ? a : b), "where with one function");
  vp_assert(na == u.present && nb == !u.present, "only the selected branch is evaluated");
  na = nb = 0;
  vp_assert(same(PresenceOrOp()(a, fb), a.present ? a : b), "or with a function");
  vp_assert(nb == !a.present, "the default is evaluated only when needed");
  nb = 0;
  vp_assert(bits_equal(PresenceOrOp()(a, fy), a.present ? a.value : y), "or with a full function");
  vp_assert(nb == !a.present, "the default is evaluated only when needed");
  nb = 0;
  vp_assert(same(PresenceAndOp()(fa, u), u.present ? a : OptionalValue<T>{}), "and with a function");
  vp_assert(is(PresenceAndOp()(fx, u), u.present, x), "and with a full function");
  vp_assert(na == 2 * u.present, "the value is evaluated only when needed");
  vp_assert(same(PresenceAndOrOp()(a, u, fb), u.present && a.present ? a : b), "(a & b) | c with a function");
  vp_assert(nb == !(u.present && a.present), "the default is evaluated only when needed");
  nb = 0;
  vp_assert(bits_equal(PresenceAndOrOp()(a, u, fy), u.present && a.present ? a.value : y), "(a & b) | c with a full function");
  vp_assert(bits_equal(PresenceAndOrOp()(x, u, fy), u.present ? x : y), "(a & b) | c with full a and a full function");
}
VP_CONTRACT(lazy_int64) { lazy<int64_t>(); }
VP_CONTRACT(lazy_float) { lazy<float>(); }

template <class T> static void compare() {
  T x = vp_any<T>("x"), y = vp_any<T>("y");
  vp_assert(MaskEqualOp()(x, y).present == (x == y), "equal");
  vp_assert(MaskNotEqualOp()(x, y).present == !(x == y), "not equal");
  vp_assert(MaskLessOp()(x, y).present == (x < y), "less");
  vp_assert(MaskLessEqualOp()(x, y).present == (x <= y), "less or equal");
  vp_assert(EqualOp()(x, y) == (x == y) && NotEqualOp()(x, y) == !(x == y), "boolean equality");
  vp_assert(LessOp()(x, y) == (x < y) && LessEqualOp()(x, y) == (x <= y), "boolean order");
  // lifted to optionals
  auto a = opt<T>("a", "a?"), b = opt<T>("b", "b?");
  bool both = a.present && b.present;
  auto less = WrapFnToAcceptOptionalArgs([](T p, T q) { return MaskLessOp()(p, q); })(a, b);
  auto eq = WrapFnToAcceptOptionalArgs([](T p, T q) { return MaskEqualOp()(p, q); })(a, b);
  vp_assert(less.present == (both && a.value < b.value), "less is present only if both are and it holds");
  vp_assert(eq.present == (both && a.value == b.value), "equal is present only if both are and it holds");
  auto bl = WrapFnToAcceptOptionalArgs([](T p, T q) { return LessOp()(p, q); })(a, b);
  vp_assert(is(bl, both, a.value < b.value), "boolean less is missing unless both are present");
  // equality of optionals themselves ignores the value of a missing one
  vp_assert((a == b) == (both ? a.value == b.value : a.present == b.present), "equality of optionals");
  vp_assert((a != b) == !(a == b), "inequality of optionals");
  vp_assert((a == x) == (a.present && a.value == x) && (x == a) == (a == x), "equality with a full value");
  vp_assert((a == std::nullopt) == !a.present && (a != std::nullopt) == a.present, "comparison with missing");
  auto o = a.AsOptional();
  vp_assert(o.has_value() == a.present && (!a.present || bits_equal(*o, a.value)), "conversion to std::optional");
  OptionalValue<T> back(o);
  vp_assert(same(back, a), "conversion from std::optional");
  // an optional argument is passed through even when missing
  auto keep = WrapFnToAcceptOptionalArgs([](OptionalValue<T> p, T q) { return p.present ? p.value : q; })(a, b);
  vp_assert(is(keep, b.present, a.present ? a.value : b.value), "optional parameters accept missing arguments");
}
VP_CONTRACT(compare_int32) { compare<int32_t>(); }
VP_CONTRACT(compare_int64) { compare<int64_t>(); }
VP_CONTRACT(compare_float) { compare<float>(); }
VP_CONTRACT(compare_double) { compare<double>(); }

VP_CONTRACT(kleene) {
  auto a = opt<bool>("a", "a?"), b = opt<bool>("b", "b?");
  auto land = LogicalAndOp()(a, b), lor = LogicalOrOp()(a, b);
  bool af = a.present && !a.value, bf = b.present && !b.value, at = a.present && a.value, bt = b.present && b.value;
  vp_assert(land.present == (af || bf || (at && bt)), "and is known exactly when it is determined");
  vp_assert(!land.present || land.value == (at && bt), "value of and");
  vp_assert(lor.present == (at || bt || (af && bf)), "or is known exactly when it is determined");
  vp_assert(!lor.present || lor.value == (at || bt), "value of or");
  bool x = vp_any<bool>("x"), y = vp_any<bool>("y");
  vp_assert(LogicalAndOp()(x, y) == (x && y) && LogicalOrOp()(x, y) == (x || y) && LogicalNotOp()(x) == !x, "two-valued operators");
  auto n = WrapFnToAcceptOptionalArgs([](bool p) { return LogicalNotOp()(p); })(a);
  vp_assert(is(n, a.present, !a.value), "not keeps missing");
}
template <class T> static void logical_if() {
  auto c = opt<bool>("c", "c?");
  auto t = opt<T>("t", "t?"), f = opt<T>("f", "f?"), m = opt<T>("m", "m?");
  vp_assert(same(LogicalIfOp()(c, t, f, m), !c.present ? m : c.value ? t : f), "if selects by the condition");
  T x = vp_any<T>("x"), y = vp_any<T>("y"), z = vp_any<T>("z");
  vp_assert(bits_equal(LogicalIfOp()(c, x, y, z), !c.present ? z : c.value ? x : y), "if of full values");
  int nt = 0, nf = 0, nm = 0;
  auto r = LogicalIfOp()(c, [&] { ++nt; return x; }, [&] { ++nf; return y; }, [&] { ++nm; return z; });
  vp_assert(bits_equal(r, !c.present ? z : c.value ? x : y), "if of functions");
  vp_assert(nt == (c.present && c.value) && nf == (c.present && !c.value) && nm == !c.present, "only the selected branch is evaluated");
}
VP_CONTRACT(logical_if_int32) { logical_if<int32_t>(); }
VP_CONTRACT(logical_if_double) { logical_if<double>(); }
