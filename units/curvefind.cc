// Contracts for arolla/pwlcurve/curves.cc
#ifdef VP_SYMBOLIC
#define NDEBUG
#define VP_NODCHECK
#endif
#include <algorithm>
#include <cmath>
#include <new>
#include <vector>
#include "vp.h"
#include "arolla/pwlcurve/curves.h"
#include "arolla/pwlcurve/curves.cc"
using namespace arolla::pwlcurve;
using namespace arolla::pwlcurve::internals;
// ---- proved: evaluation of a curve, and its coefficients ----
constexpr uint64_t kMost = uint64_t{1} << 32;
template <class T> struct Equations {   // of the form (last x, m, b), in the layout of the tuples
  using C = LinearCoefficients<T>;
  uint64_t n; C* c;
  explicit Equations(int native) : Equations(vp_nd_size("n", kMost, native)) {}
  explicit Equations(uint64_t n) : n(n) {
    static constexpr unsigned F = sizeof(T) * 1;
    static constexpr unsigned g[9] = {0, F, 2, F, F, 2, 2 * F, F, 2};
    c = static_cast<C*>(vp_region("c", n, sizeof(C), g, 3));
  }
  T last(uint64_t i) const { return std::get<0>(c[i]); }
};
template <class T> static void adopt(const std::vector<LinearCoefficients<T>>& v, LinearCoefficients<T>* p, uint64_t n) {
  auto& w = const_cast<std::vector<LinearCoefficients<T>>&>(v);
  w._M_impl._M_start = p; w._M_impl._M_finish = w._M_impl._M_end_of_storage = p + n;
}
template <class T> static bool same_bits(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> static bool same_number(T a, T b) { return same_bits(a, b) || (a != a && b != b); }
template <class T> static void evaluated() {
  Equations<T> e(12);
  vp_assume(e.n >= 1);
  if (kVpNative) { for (uint64_t i = 0; i < e.n; ++i) if (std::isnan(e.last(i))) std::get<0>(e.c[i]) = T(i % 5); std::sort(e.c, e.c + e.n, [](auto& a, auto& b) { return std::get<0>(a) < std::get<0>(b); }); }
  VP_ASSUME_FORALL(e.c, e.n, i, e.last(i) == e.last(i));
  VP_ASSUME_FORALL2(e.c, e.n, i, j, e.last(i) <= e.last(j));
  uint64_t g = vp_nd_size("g", kMost, 12); vp_assume(g < e.n);
  T x = vp_any<T>("x"), fx = vp_any<T>("fx"), fy = vp_any<T>("fy"), bx = vp_any<T>("bx"), by = vp_any<T>("by");
  bool before = g < e.n - 1 && e.last(g) < x;
  bool first = g == 0 || e.last(g - 1) < x;
  vp_opt("plain"); vp_opt("noauto"); vp_opt("selects"); vp_opt("narrow=40"); vp_opt("commut");
  VP_INV2(t, d, !(g < t) || before);
  VP_INV2(t, d, !(g >= t + d) || !before);
  VP_INV2(t, d, g == 0 || !(g - 1 >= t + d) || !first);
  VP_INV2(t, d, t <= e.n - 1 && d <= e.n - 1 && t + d <= e.n - 1);
  // (the same for bounds kept as two indices)
  VP_INVV(t, !(g < t) || before);
  VP_INVV(t, !(g >= t) || !before);
  VP_INVV(t, g == 0 || !(g - 1 >= t) || !first);
  VP_INVV(t, t <= e.n - 1);
  alignas(PWLCurveTmpl<IdentityHook>) char memory[sizeof(PWLCurveTmpl<IdentityHook>)];
  auto& curve = *reinterpret_cast<PWLCurveTmpl<IdentityHook>*>(memory);
  T y;
  if constexpr (std::is_same_v<T, float>) {
    new (const_cast<Point<float>*>(&curve.float_front_)) Point<float>{fx, fy}; new (const_cast<Point<float>*>(&curve.float_back_)) Point<float>{bx, by};
    adopt<float>(curve.float_coefficients_, e.c, e.n);
  } else {
    new (const_cast<Point<double>*>(&curve.front_)) Point<double>{fx, fy}; new (const_cast<Point<double>*>(&curve.back_)) Point<double>{bx, by};
    adopt<double>(curve.double_coefficients_, e.c, e.n);
  }
  y = curve.PWLCurveTmpl<IdentityHook>::Eval(x);
  if (x <= fx) vp_assert(same_bits(y, fy), "the first value up to the first point");
  else if (x >= bx) vp_assert(same_bits(y, by), "the last value from the last point");
  else if (!before && first) vp_assert(same_number(y, std::get<1>(e.c[g]) * x + std::get<2>(e.c[g])), "in between the equation of the segment x lies in");
}
VP_CONTRACT(evaluate_float) { evaluated<float>(); }
VP_CONTRACT(evaluate_double) { evaluated<double>(); }
template <class T> static __attribute__((noinline)) VP_NOSAN T slope(T dy, T dx) { return dy / dx; }
template <class T> static void coefficients() {
  uint64_t n = vp_nd_size("n", uint64_t{1} << 30, 12);
  vp_assume(n >= 2);
  static constexpr unsigned F = sizeof(T), g2[6] = {0, F, 2, F, F, 2};
  Point<T>* p = static_cast<Point<T>*>(vp_region("p", n, sizeof(Point<T>), g2, 2));
  uint64_t g = vp_nd_size("g", uint64_t{1} << 30, 12);
  vp_assume(g < n - 1);
  vp_opt("commut");
  vp_opt("plain"); vp_opt("noauto");
  Equations<T> e(n - 1);
  const LinearCoefficients<T>* c = e.c;
  auto is = [&](int k) VP_NOSAN {
    T m = slope<T>(p[g + 1].y - p[g].y, p[g + 1].x - p[g].x);
    return k == 0 ? same_number(std::get<0>(c[g]), p[g + 1].x) : k == 1 ? same_number(std::get<1>(c[g]), m) : same_number(std::get<2>(c[g]), p[g].y - m * p[g].x);
  };
  VP_INVV(t, !(g < t) || is(0));
  VP_INVV(t, !(g < t) || is(1));
  VP_INVV(t, !(g < t) || is(2));
  VP_INVV(t, t <= n - 1);
  // (the same for a count from one)
  VP_INVV(t, !(g + 1 < t) || is(0));
  VP_INVV(t, !(g + 1 < t) || is(1));
  VP_INVV(t, !(g + 1 < t) || is(2));
  vp_next_new(e.c);
  using It = typename std::vector<Point<T>>::const_iterator;
  auto v = PWLCoefficientsFor<T>(vp_any<bool>("up"), It(p), It(p + n));
  vp_assert(v.size() == n - 1, "one equation per segment");
  c = v.data();
  vp_assert(is(0), "that ends at the next point");
  vp_assert(is(1), "with the slope between its points");
  vp_assert(is(2), "through its first point");
}
VP_CONTRACT(coefficients_float) { coefficients<float>(); }
VP_CONTRACT(coefficients_double) { coefficients<double>(); }
