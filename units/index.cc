// Contracts for arolla/util/{iterator,overflow,algorithms,raw_span,switch_index}.h
#include <algorithm>
#include "vp.h"
#include "models.h"
#include "arolla/util/algorithms.h"
#include "arolla/util/iterator.h"
#include "arolla/util/overflow.h"
#include "arolla/util/raw_span.h"
#include "arolla/util/switch_index.h"
using namespace arolla;

template <class T, class S = int64_t> struct Arr {
  using value_type = T; using size_type = S; using difference_type = int64_t;
  const T* p;
  S n;
  const T& operator[](S i) const { return p[i]; }
  ConstArrayIterator<Arr> begin() const { return {this, 0}; }
  ConstArrayIterator<Arr> end() const { return {this, n}; }
};
template <class S> static void arithmetic() {
  uint64_t n = vp_size("n", 40), g = vp_size("g", 40), h = vp_size("h", 40);
  Arr<int64_t, S> a{vp_array<int64_t>("a", n), static_cast<S>(n)};
  vp_assume(g < n && h < n);
  using It = ConstArrayIterator<Arr<int64_t, S>>;
  It b = a.begin(), e = a.end();
  int64_t d = static_cast<int64_t>(h) - static_cast<int64_t>(g);
  It x(&a, static_cast<S>(g)), y(&a, static_cast<S>(h));
  vp_assert(&*x == a.p + g && x.operator->() == a.p + g && &b[g] == a.p + g, "an iterator at a position refers to that element");
  vp_assert(e - b == static_cast<int64_t>(n) && y - x == d, "difference of positions");
  vp_assert(x + d == y && d + x == y && y - d == x && b + static_cast<int64_t>(h) == y, "advancing by the difference");
  It z = x;
  z += d;
  vp_assert(z == y && &*z == a.p + h, "in-place advance");
  z -= d;
  vp_assert(z == x && &*z == a.p + g, "in-place retreat");
  vp_assert((x == y) == (g == h) && (x != y) == (g != h), "equality of positions");
  vp_assert((x < y) == (g < h) && (x <= y) == (g <= h) && (x > y) == (g > h) && (x >= y) == (g >= h), "order of positions");
  It u = x;
  It v = u++;
  vp_assert(v == x && u == b + static_cast<int64_t>(g + 1), "post-increment");
  v = u--;
  vp_assert(v == b + static_cast<int64_t>(g + 1) && u == x, "post-decrement");
  It& r = ++u;
  vp_assert(&r == &u && u - b == static_cast<int64_t>(g + 1), "pre-increment");
  It& s = --u;
  vp_assert(&s == &u && u == x, "pre-decrement");
}
VP_CONTRACT(arithmetic_signed) { arithmetic<int64_t>(); }
VP_CONTRACT(arithmetic_unsigned) { arithmetic<size_t>(); }
VP_CONTRACT(forward_visit) {
  uint64_t n = vp_size("n", 40), g = vp_size("g", 40);
  Arr<int32_t> a{vp_array<int32_t>("a", n), static_cast<int64_t>(n)};
  vp_assume(g < n);
  uint64_t count = 0, seen = 0;
  uint64_t at = n;
  VP_INV0(at == (count > g ? g : n));
  VP_INV0(seen == (count > g ? 1 : 0));
  VP_INV0(count <= n);
  for (const int32_t& x : a) {
    if (count == g) at = &x - a.p;
    if (&x == a.p + g) ++seen;
    ++count;
  }
  vp_assert(count == n, "every element is visited");
  vp_assert(at == g && seen == 1, "element g is visited once, as the g-th");
}
VP_CONTRACT(backward_visit) {
  uint64_t n = vp_size("n", 40), g = vp_size("g", 40);
  Arr<int32_t> a{vp_array<int32_t>("a", n), static_cast<int64_t>(n)};
  vp_assume(g < n);
  uint64_t left = n, seen = 0;
  uint64_t at = n;
  VP_INV0(at == (left <= g ? g : n));
  VP_INV0(seen == (left <= g ? 1 : 0));
  for (auto it = a.end(); it != a.begin();) {
    --it;
    --left;
    if (left == g) at = &*it - a.p;
    if (&*it == a.p + g) ++seen;
  }
  vp_assert(left == 0, "every element is visited");
  vp_assert(at == g && seen == 1, "element g is visited once, in reverse order");
}

using i128 = __int128;
template <class R, class W> static bool fits(W v) {
  if constexpr (std::is_same_v<R, size_t>) return v >= 0 && (v >> 64) == 0;
  else return v == static_cast<W>(static_cast<R>(v));
}
template <class R, class A, class B> static void add() {
  A x = vp_any<A>("x"); B y = vp_any<B>("y");
  i128 v = static_cast<i128>(x) + static_cast<i128>(y);
  bool o = vp_any<bool>("o"), before = o;
  R r = safe_add<R>(x, y, &o);
  vp_assert(o == (before || !fits<R>(v)), "the overflow flag is raised exactly when the sum does not fit");
  vp_assert(!fits<R>(v) || static_cast<i128>(r) == v, "the sum is exact when it fits");
  auto s = SafeAdd<R>(x, y);
  vp_assert(s.ok() == fits<R>(v), "SafeAdd is an error exactly on overflow");
  if (s.ok()) vp_assert(static_cast<i128>(*s) == v, "SafeAdd is exact");
  else vp_assert(s.status().code() == absl::StatusCode::kInvalidArgument, "overflow is an invalid argument");
}
VP_CONTRACT(add_int64) { add<int64_t, int64_t, int64_t>(); }
VP_CONTRACT(add_int32) { add<int32_t, int32_t, int32_t>(); }
VP_CONTRACT(add_size) { add<size_t, size_t, size_t>(); }
VP_CONTRACT(add_mixed) { add<int64_t, size_t, int64_t>(); }
VP_CONTRACT(add_narrowing) { add<int32_t, int64_t, int64_t>(); }
template <class R, class A, class B> static void mul() {
  vp_opt("wide_mul");
  A x = vp_any<A>("x"); B y = vp_any<B>("y");
  using W = std::conditional_t<sizeof(A) == 4, int64_t, i128>;
  W v = static_cast<W>(x) * static_cast<W>(y);
  bool o = vp_any<bool>("o"), before = o;
  R r = safe_mul<R>(x, y, &o);
  vp_assert(o == (before || !fits<R>(v)), "the overflow flag is raised exactly when the product does not fit");
  vp_assert(!fits<R>(v) || static_cast<W>(r) == v, "the product is exact when it fits");
}
template <class R, class A, class B> static void mul_status() {
  A x = vp_any<A>("x"); B y = vp_any<B>("y");
  bool o = false;
  R r = safe_mul<R>(x, y, &o);
  auto s = SafeMul<R>(x, y);
  vp_assert(s.ok() == !o, "SafeMul is an error exactly on overflow");
  if (s.ok()) vp_assert(*s == r, "SafeMul is exact");
  else vp_assert(s.status().code() == absl::StatusCode::kInvalidArgument, "overflow is an invalid argument");
}
VP_CONTRACT(mul_int32) { mul<int32_t, int32_t, int32_t>(); }
VP_CONTRACT(mul_int64) { mul<int64_t, int64_t, int64_t>(); }
VP_CONTRACT(mul_size) {
  size_t x = vp_any<size_t>("x"), y = vp_any<size_t>("y");
  bool o = false;
  size_t r = safe_mul<size_t>(x, y, &o);
  unsigned __int128 v = static_cast<unsigned __int128>(x) * y;
  vp_assert(o == ((v >> 64) != 0), "the overflow flag is raised exactly when the product does not fit");
  vp_assert(o || r == static_cast<size_t>(v), "the product is exact when it fits");
}
VP_CONTRACT(mul_status_int64) { mul_status<int64_t, int64_t, int64_t>(); }
VP_CONTRACT(mul_status_size) { mul_status<size_t, size_t, size_t>(); }
template <class R, class A> static void abs_() {
  A x = vp_any<A>("x");
  i128 v = static_cast<i128>(x);
  if (v < 0) v = -v;
  bool o = vp_any<bool>("o"), before = o;
  R r = safe_abs<R>(x, &o);
  vp_assert(o == (before || !fits<R>(v)), "the overflow flag is raised exactly when the magnitude does not fit");
  vp_assert(!fits<R>(v) || static_cast<i128>(r) == v, "the magnitude is exact when it fits");
  auto s = SafeAbs<R>(x);
  vp_assert(s.ok() == fits<R>(v), "SafeAbs is an error exactly on overflow");
  if (s.ok()) vp_assert(static_cast<i128>(*s) == v, "SafeAbs is exact");
}
VP_CONTRACT(abs_int64) { abs_<int64_t, int64_t>(); }
VP_CONTRACT(abs_int32) { abs_<int32_t, int32_t>(); }
VP_CONTRACT(abs_widening) { abs_<int64_t, int32_t>(); }
VP_CONTRACT(abs_size) { abs_<int64_t, size_t>(); }

VP_CONTRACT(round_up) {
  size_t value = vp_size("value", 200), k = vp_nd_range("log2", 0, 6);
  size_t divisor = size_t{1} << k;
  size_t r = RoundUp(value, divisor);
  vp_assert(r >= value && r - value < divisor && (r & (divisor - 1)) == 0, "the least multiple not below the value");
}
VP_CONTRACT(raw_span) {
  uint64_t n = vp_size("n", 40), g = vp_size("g", 40), off = vp_size("off", 40), m = vp_size("m", 40);
  int32_t* p = vp_array<int32_t>("a", n);
  vp_assume(g < n && off <= n && m <= n - off);
  RawSpan<int32_t> s(p, n);
  vp_assert(s.size() == n && s.data() == p && !s.empty() && s.begin() == p && s.end() == p + n, "the span covers the memory given");
  vp_assert(&s[g] == p + g && &s.front() == p && &s.back() == p + n - 1, "indexing");
  auto t = s.subspan(off);
  vp_assert(t.data() == p + off && t.size() == n - off, "suffix");
  auto u = s.subspan(off, m);
  vp_assert(u.data() == p + off && u.size() == m && u.empty() == (m == 0), "subspan");
  absl::Span<int32_t> a = u;
  vp_assert(a.data() == p + off && a.size() == m, "conversion");
}
VP_CONTRACT(switch_index_32) {
  int n = vp_nd_range("n", 0, 31);
  vp_assert(switch_index<32>(n, [](auto i) { return static_cast<int>(i()); }) == n, "the callback gets the index");
}
VP_CONTRACT(switch_index_64) {
  int n = vp_nd_range("n", 0, 63);
  vp_assert(switch_index<64>(n, [](auto i) { return static_cast<int>(i()); }) == n, "the callback gets the index");
}
