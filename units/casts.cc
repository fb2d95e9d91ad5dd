// Contracts for arolla/qexpr/operators/core/cast_operator.h
#include <cmath>
#include <limits>
#include "vp.h"
#define VP_MODEL_REPR
#include "models.h"
#include "arolla/qexpr/operators/core/cast_operator.h"
using namespace arolla;

// The value of a floating-point number with its fraction cut off, as sign and 64-bit magnitude (exact when < 2^64).
template <class S> struct Trunc { bool nan, big, neg; uint64_t mag; };
template <class S> static Trunc<S> trunc_of(S x) {
  constexpr bool f32 = sizeof(S) == 4;
  constexpr int M = f32 ? 23 : 52, E = f32 ? 8 : 11, BIAS = (1 << (E - 1)) - 1;
  using B = std::conditional_t<f32, uint32_t, uint64_t>;
  B b = __builtin_bit_cast(B, x);
  Trunc<S> r{};
  r.neg = b >> (sizeof(S) * 8 - 1);
  int e = int((b >> M) & ((1u << E) - 1));
  uint64_t m = b & ((B(1) << M) - 1);
  r.nan = e == (1 << E) - 1 && m != 0;
  int k = e - BIAS;  // value = 1.m * 2^k
  r.big = k >= 64;
  uint64_t full = m | (uint64_t{1} << M);
  r.mag = k < 0 || e == 0 || r.big ? 0 : k <= M ? full >> (M - k) : full << (k - M);
  return r;
}
template <class S, class D> static void float_to_int() {
  S x = vp_any<S>("x");
  auto t = trunc_of<S>(x);
  constexpr uint64_t pos = uint64_t(std::numeric_limits<D>::max());
  constexpr uint64_t neg = std::is_signed_v<D> ? pos + 1 : 0;
  bool fits = !t.nan && !t.big && t.mag <= (t.neg ? neg : pos);
  // Unsigned targets do not accept values in (-1, 0).
  if (!std::is_signed_v<D> && x < 0) fits = false;
  auto r = CastOp<D>()(x);
  vp_assert(!r.ok() || fits, "a value that is not representable is never accepted");
  vp_assert(!r.ok() || *r == D(t.neg ? uint64_t(0) - t.mag : t.mag), "the value truncated toward zero");
  // Accepted up to the largest source value whose truncation is representable.
  vp_assert(r.ok() || !fits, "every representable value is accepted");
  vp_cover("cast");
}
VP_CONTRACT(float_to_int32) { float_to_int<float, int32_t>(); }
VP_CONTRACT(float_to_int64) { float_to_int<float, int64_t>(); }
VP_CONTRACT(float_to_uint64) { float_to_int<float, uint64_t>(); }
VP_CONTRACT(double_to_int32) { float_to_int<double, int32_t>(); }
VP_CONTRACT(double_to_int64) { float_to_int<double, int64_t>(); }
VP_CONTRACT(double_to_uint64) { float_to_int<double, uint64_t>(); }
template <class S, class D> static void int_to_int() {
  S x = vp_any<S>("x");
  auto r = CastOp<D>()(x);
  if constexpr (std::is_same_v<decltype(r), D>) {
    vp_assert(S(r) == x && (x < 0) == (r < 0), "a widening cast preserves the value");
  } else {
    bool fits = S(D(x)) == x && (x < 0) == (D(x) < 0);
    vp_assert(r.ok() == fits, "an error exactly when the value is not representable");
    vp_assert(!fits || *r == D(x), "the value is preserved");
  }
}
VP_CONTRACT(int32_to_int64) { int_to_int<int32_t, int64_t>(); }
VP_CONTRACT(int64_to_int32) { int_to_int<int64_t, int32_t>(); }
VP_CONTRACT(int32_to_uint64) { int_to_int<int32_t, uint64_t>(); }
VP_CONTRACT(int64_to_uint64) { int_to_int<int64_t, uint64_t>(); }
VP_CONTRACT(uint64_to_int32) { int_to_int<uint64_t, int32_t>(); }
VP_CONTRACT(uint64_to_int64) { int_to_int<uint64_t, int64_t>(); }
template <class S> static void to_bool() {
  S x = vp_any<S>("x");
  vp_assert(ToBoolOp()(x) == (x != S(0)), "true exactly for non-zero values");
  bool b = vp_any<bool>("b");
  vp_assert(CastOp<S>()(b) == S(b ? 1 : 0), "bool converts to 0 or 1");
  vp_assert(CastOp<S>()(x) == x || x != x, "a cast to the same type is the identity");
  auto o = ToOptionalOp()(x);
  vp_assert(o.present && (o.value == x || x != x), "to_optional is present with the value");
  OptionalValue<S> y(x);
  y.present = vp_any<bool>("present");
  auto g = GetOptionalValueOp()(y);
  vp_assert(g.ok() == y.present && (!y.present || *g == x || x != x), "get_optional_value: the value, or an error when missing");
}
VP_CONTRACT(to_bool_int32) { to_bool<int32_t>(); }
VP_CONTRACT(to_bool_int64) { to_bool<int64_t>(); }
VP_CONTRACT(to_bool_float) { to_bool<float>(); }
VP_CONTRACT(to_bool_double) { to_bool<double>(); }
VP_CONTRACT(float_double) {
  float x = vp_any<float>("x");
  double d = CastOp<double>()(x);
  vp_assert(x != x ? d != d : float(d) == x, "float to double preserves the value");
}
