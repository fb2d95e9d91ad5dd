// Contracts for arolla/qexpr/operators/math/arithmetic.h and bitwise/bitwise.h
#include <limits>
#include "vp.h"
#include "models.h"
#include "arolla/qexpr/operators/bitwise/bitwise.h"
#include "arolla/qexpr/operators/math/arithmetic.h"
using namespace arolla;
template <class T> using U = std::make_unsigned_t<T>;
// Values near the limits are as likely as any other in native runs.
template <class T> static T num(const char* name) { return vp_any<T>(name); }

template <class T> static void ring() {
  T a = num<T>("a"), b = num<T>("b"), c = num<T>("c");
  U<T> ua = a, ub = b, uc = c;
  vp_assert(AddOp()(a, b) == T(ua + ub), "add is exact modulo 2^n");
  vp_assert(AddOp()(a, b, c) == T(ua + ub + uc), "three-argument add is exact modulo 2^n");
  vp_assert(SubtractOp()(a, b) == T(ua - ub), "subtract is exact modulo 2^n");
  vp_assert(NegOp()(a) == T(U<T>(0) - ua), "negation is exact modulo 2^n");
  vp_assert(PosOp()(a) == a, "unary plus is the identity");
  T abs = AbsOp()(a);
  vp_assert(U<T>(abs) == (a < 0 ? U<T>(0) - ua : ua), "absolute value is exact modulo 2^n");
}
VP_CONTRACT(ring_32) { ring<int32_t>(); }
VP_CONTRACT(ring_64) { ring<int64_t>(); }
template <class T> static void multiply() {
  T a = num<T>("a"), b = num<T>("b");
  vp_assert(MultiplyOp()(a, b) == T(U<T>(a) * U<T>(b)), "multiply is exact modulo 2^n");
}
VP_CONTRACT(multiply_32) { multiply<int32_t>(); }
VP_CONTRACT(multiply_64) { multiply<int64_t>(); }
// Reference: quotient and remainder rounded toward zero, then adjusted. Only defined when a/b does not overflow.
template <class T> static bool overflows(T a, T b) { return a == std::numeric_limits<T>::min() && b == -1; }
template <class T> static void floordiv() {
  T a = num<T>("a"), b = num<T>("b");
  auto r = FloorDivOp()(a, b);
  vp_assert(r.ok() == (b != 0), "an error exactly when the divisor is zero");
  if (b == 0) return;
  if (overflows(a, b)) { vp_assert(*r == a, "the unrepresentable quotient wraps around"); return; }
  T t = b == -1 ? T(U<T>(0) - U<T>(a)) : a / b, m = b == -1 ? 0 : a % b;
  vp_assert(*r == (m != 0 && ((m < 0) != (b < 0)) ? t - 1 : t), "quotient rounded toward minus infinity");
}
VP_CONTRACT(floordiv_32) { floordiv<int32_t>(); }
VP_CONTRACT(floordiv_64) { floordiv<int64_t>(); }
template <class T> static void mod() {
  T a = num<T>("a"), b = num<T>("b");
  auto r = ModOp()(a, b);
  vp_assert(r.ok() == (b != 0), "an error exactly when the divisor is zero");
  if (b == 0) return;
  T m = b == -1 ? 0 : a % b;
  vp_assert(*r == (m != 0 && ((m < 0) != (b < 0)) ? m + b : m), "remainder with the sign of the divisor");
  vp_assert(b > 0 ? *r >= 0 && *r < b : *r <= 0 && *r > b, "remainder between zero and the divisor");
}
VP_CONTRACT(mod_32) { mod<int32_t>(); }
VP_CONTRACT(mod_64) { mod<int64_t>(); }
template <class T> static void order() {
  T a = num<T>("a"), b = num<T>("b");
  vp_assert(MaxOp()(a, b) == (a < b ? b : a), "max is the larger operand");
  vp_assert(MinOp()(a, b) == (a < b ? a : b), "min is the smaller operand");
  vp_assert(SignOp()(a) == (a < 0 ? -1 : a > 0 ? 1 : 0), "sign");
}
VP_CONTRACT(order_32) { order<int32_t>(); }
VP_CONTRACT(order_64) { order<int64_t>(); }
template <class T> static void order_float() {
  T a = num<T>("a"), b = num<T>("b");
  T mx = MaxOp()(a, b), mn = MinOp()(a, b), s = SignOp()(a);
  bool nan = a != a || b != b;
  vp_assert(nan ? mx != mx : (mx == a || mx == b) && mx >= a && mx >= b, "max of floats; NaN if either is NaN");
  vp_assert(nan ? mn != mn : (mn == a || mn == b) && mn <= a && mn <= b, "min of floats; NaN if either is NaN");
  vp_assert(a != a ? s != s : s == (a < 0 ? T(-1) : a > 0 ? T(1) : T(0)), "sign of floats; NaN for NaN");
  T ng = NegOp()(a), ab = AbsOp()(a);
  vp_assert(a != a ? ng != ng && ab != ab : ng == -a && ab == (a < 0 ? -a : a), "negation and absolute value of floats");
}
VP_CONTRACT(order_float) { order_float<float>(); }
VP_CONTRACT(order_double) { order_float<double>(); }
template <class T> static void classify() {
  T a = num<T>("a");
  constexpr T inf = std::numeric_limits<T>::infinity();
  vp_assert(IsNanOp()(a).present == (a != a), "is_nan");
  vp_assert(IsInfOp()(a).present == (a == inf || a == -inf), "is_inf");
  vp_assert(IsFiniteOp()(a).present == (a == a && a != inf && a != -inf), "is_finite");
}
VP_CONTRACT(classify_float) { classify<float>(); }
VP_CONTRACT(classify_double) { classify<double>(); }
template <class T> static void bitwise() {
  T a = num<T>("a"), b = num<T>("b");
  int k = vp_nd_range("k", 0, sizeof(T) * 8 - 1);
  auto bit = [&](T x) { return (U<T>(x) >> k) & 1; };
  vp_assert(bit(BitwiseAndOp()(a, b)) == (bit(a) & bit(b)), "bitwise and");
  vp_assert(bit(BitwiseOrOp()(a, b)) == (bit(a) | bit(b)), "bitwise or");
  vp_assert(bit(BitwiseXorOp()(a, b)) == (bit(a) ^ bit(b)), "bitwise xor");
  vp_assert(bit(InvertOp()(a)) != bit(a), "bitwise not");
  int n = 0;
  for (int i = 0; i < int(sizeof(T) * 8); ++i) n += (U<T>(a) >> i) & 1;
  vp_assert(BitwiseCountOp()(a) == n, "bit count");
}
VP_CONTRACT(bitwise_32) { bitwise<int32_t>(); }
VP_CONTRACT(bitwise_64) { bitwise<int64_t>(); }
