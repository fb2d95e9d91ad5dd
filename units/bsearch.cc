// Contracts for arolla/util/binary_search.{h,cc}
#include <algorithm>
#include <cmath>
#include "vp.h"
#include "arolla/util/binary_search.h"
#include "arolla/util/binary_search.cc"
using namespace arolla;
// The search is instantiated by the real code once per power of two; each
// instance is a separate function with its own obligations. Lengths below
// 2^VP_LEN_BITS are covered.
#ifdef VP_THOROUGH
#define VP_LEN_BITS 16
#else
#define VP_LEN_BITS 8
#endif
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
constexpr uint64_t kMaxLen = (uint64_t{1} << VP_LEN_BITS) - 1;

// An ascending array of numbers (no NaN inside), an arbitrary key, an arbitrary position g.
template <class T> struct In {
  uint64_t n, g; T* a; T v;
  explicit In(uint64_t hi) : n(vp_nd_size("n", hi, 70)) {
    a = vp_array<T>("a", n);
    v = vp_any<T>("v");
    g = vp_nd_size("g", hi, 70);
    if (kVpNative) {
      for (uint64_t i = 0; i < n; ++i) if (a[i] != a[i]) a[i] = T(i % 3);
      std::sort(a, a + n);
      if (n && vp_any<bool>("hit")) v = a[g % n];
    }
    vp_assume(g < n);
  }
};
#define NUMBERS(in) VP_ASSUME_FORALL(in.a, in.n, i, in.a[i] == in.a[i])
#define SORTED(in) VP_ASSUME_FORALL2(in.a, in.n, i, j, in.a[i] <= in.a[j])
template <class T> static void lower() {
  In<T> in(kMaxLen);
  NUMBERS(in);
  SORTED(in);
  bool before = in.a[in.g] < in.v;
  // proof hints: the prefix or suffix of length 2^k-1 that is searched, and the search interval [t, t+k)
  uint64_t size = in.n > 2 ? (uint64_t{1} << (63 - __builtin_clzll(in.n))) - 1 : 0;
  uint64_t base = in.n > 2 && in.a[size] < in.v ? in.n - size : 0;
  vp_opt("plain"); vp_opt("noauto"); vp_opt("selects"); vp_opt("narrow=" VP_STR(VP_LEN_BITS) "");
  VP_INV2(t, k, !(in.g < base + t) || before);
  VP_INV2(t, k, !(in.g >= base + t + k) || !before);
  VP_INV2(t, k, t + k <= size && t <= size && k <= size);
  VP_INV1(k, (k & (k + 1)) == 0);
  size_t r = LowerBound(in.v, absl::Span<const T>(in.a, in.n));
  vp_assert(r <= in.n, "the result is a position or the length");
  vp_assert((in.g < r) == before, "exactly the elements below the result are less than the key");
}
VP_CONTRACT(lower_int32) { lower<int32_t>(); }
VP_CONTRACT(lower_int64) { lower<int64_t>(); }
VP_CONTRACT(lower_float) { lower<float>(); }
VP_CONTRACT(lower_double) { lower<double>(); }
template <class T> static void upper() {
  In<T> in(kMaxLen);
  NUMBERS(in);
  SORTED(in);
  bool before = !(in.v < in.a[in.g]);
  // proof hints: the prefix or suffix of length 2^k-1 that is searched, and the search interval [t, t+k)
  uint64_t size = in.n > 2 ? (uint64_t{1} << (63 - __builtin_clzll(in.n))) - 1 : 0;
  uint64_t base = in.n > 2 && !(in.v < in.a[size]) ? in.n - size : 0;
  vp_opt("plain"); vp_opt("noauto"); vp_opt("selects"); vp_opt("narrow=" VP_STR(VP_LEN_BITS) "");
  VP_INV2(t, k, !(in.g < base + t) || before);
  VP_INV2(t, k, !(in.g >= base + t + k) || !before);
  VP_INV2(t, k, t + k <= size && t <= size && k <= size);
  VP_INV1(k, (k & (k + 1)) == 0);
  size_t r = UpperBound(in.v, absl::Span<const T>(in.a, in.n));
  vp_assert(r <= in.n, "the result is a position or the length");
  vp_assert((in.g < r) == before, "exactly the elements from the result on are greater than the key");
}
VP_CONTRACT(upper_int32) { upper<int32_t>(); }
VP_CONTRACT(upper_int64) { upper<int64_t>(); }
VP_CONTRACT(upper_float) { upper<float>(); }
VP_CONTRACT(upper_double) { upper<double>(); }
template <class T> static void galloping() {
  In<T> in(uint64_t{1} << 40);
  NUMBERS(in);
  SORTED(in);
  bool before = in.a[in.g] < in.v;
  vp_opt("plain"); vp_opt("noauto"); vp_opt("selects"); vp_opt("narrow=43");
  VP_INV2(t, d, !(in.g <= t) || before);
  VP_INV2(t, d, !(in.g >= t + d) || !before);
  VP_INV2(t, d, t < in.n);
  VP_INV1(d, d != 0 && (d & (d - 1)) == 0 && d <= uint64_t{1} << 41);
  T* p = GallopingLowerBound(in.a, in.a + in.n, in.v);
  uint64_t r = p - in.a;
  vp_assert(r <= in.n, "the result is a position or the end");
  vp_assert((in.g < r) == before, "exactly the elements below the result are less than the key");
}
VP_CONTRACT(galloping_int64) { galloping<int64_t>(); }
VP_CONTRACT(galloping_int32) { galloping<int32_t>(); }
VP_CONTRACT(galloping_float) { galloping<float>(); }
