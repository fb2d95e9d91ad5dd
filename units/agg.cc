// Contracts for arolla/qexpr/operators/aggregation/group_op_accumulators.h
//
// A fold is decided by its two equations: Reset, from any state (whatever the
// previous group left behind), yields the empty fold; Add, from any state,
// yields the fold with one more element. The accumulators' state is set by the
// contracts directly (units are compiled without access control).
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "vp.h"
#include "models.h"
#include "absl/container/flat_hash_map.h"
#include "absl/strings/str_format.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/aggregation_ops_interface.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/operators/math/arithmetic.h"
#include "arolla/util/cancellation.h"
#include "arolla/qexpr/operators/aggregation/group_op_accumulators.h"
using namespace arolla;
constexpr auto kAgg = AccumulatorType::kAggregator;
template <class T> static T num(const char* name) {
  T v = vp_any<T>(name);
  if (kVpNative) { if constexpr (std::is_integral_v<T> && sizeof(T) > 1) { if (vp_any<bool>("small")) v = v % 5; } }
  return v;
}
template <class T> static OptionalValue<T> opt(const char* name, const char* pname) {
  OptionalValue<T> r; r.present = vp_any<bool>(pname); r.value = num<T>(name);
  return r;
}
template <class T> static bool same(T a, T b) { if constexpr (std::is_floating_point_v<T>) return a == b || (a != a && b != b); else return a == b; }
template <class T> static bool same_opt(const OptionalValue<T>& a, const OptionalValue<T>& b) { return a.present == b.present && (!a.present || same(a.value, b.value)); }

// ---- count, any, all, logical ----------------------------------------------
VP_CONTRACT(count) {
  SimpleCountAggregator a;
  int64_t before = a.accumulator = vp_nd_size("state", uint64_t{1} << 62, 1000), n = vp_nd_size("n", uint64_t{1} << 61, 1000);
  unsigned op = vp_nd_range("op", 0, 2);
  if (op == 0) { a.Reset(); vp_assert(a.GetResult() == 0, "the count of nothing is zero"); }
  if (op == 1) { a.Add(Unit{}); vp_assert(a.GetResult() == before + 1, "one more"); }
  if (op == 2) { a.AddN(n, Unit{}); vp_assert(a.GetResult() == before + n, "n more"); }
  CountPartialAccumulator p;
  p.accumulator = before;
  p.Add(Unit{});
  vp_assert(p.GetResult() == before + 1, "the running count includes the element");
  p.Reset();
  vp_assert(p.GetResult() == 0, "the running count begins anew");
}
VP_CONTRACT(any_all) {
  AnyAggregator any; AllAggregator all;
  bool sa = any.accumulator = vp_any<bool>("any_state"), sl = all.accumulator = vp_any<bool>("all_state"), v = vp_any<bool>("v");
  int64_t n = vp_nd_size("n", uint64_t{1} << 40, 1000);
  vp_assert(any.GetResult().present == sa && all.GetResult().present == sl, "results");
  unsigned op = vp_nd_range("op", 0, 2);
  if (op == 0) { any.Reset(); all.Reset(); vp_assert(!any.GetResult().present && all.GetResult().present, "empty folds"); return; }
  vp_assume(n > 0);
  if (op == 1) { any.Add(Unit{}); all.Add(OptionalUnit(v)); } else { any.AddN(n, Unit{}); all.AddN(n, OptionalUnit(v)); }
  vp_assert(any.GetResult().present, "any of a group with an element");
  vp_assert(all.GetResult().present == (sl && v), "all: every element is present");
}
// State of the logical folds: has any element been (non-)neutral, has any been missing.
template <class A> static void logical(A& a, bool& hit, bool dominant) {
  bool sh = hit = vp_any<bool>("hit"), sm = a.has_missing = vp_any<bool>("missing");
  unsigned op = vp_nd_range("op", 0, 2);
  OptionalValue<bool> v = opt<bool>("v", "present");
  if (op == 0) { a.Reset(); sh = sm = false; }
  else {
    if (op == 1) a.Add(v); else a.AddN(vp_nd_size("n", uint64_t{1} << 40, 1000) + 1, v);
    sh = sh || (v.present && v.value == dominant); sm = sm || !v.present;
  }
  vp_assert(hit == sh && a.has_missing == sm, "what has been seen");
  OptionalValue<bool> r = a.GetResult();
  vp_assert(same_opt(r, sh ? OptionalValue<bool>(dominant) : sm ? OptionalValue<bool>() : OptionalValue<bool>(!dominant)), "three-valued result");
}
VP_CONTRACT(logical_all) { LogicalAllAggregator a; logical(a, a.has_false, false); }
VP_CONTRACT(logical_any) { LogicalAnyAggregator a; logical(a, a.has_true, true); }
// ---- sum, product, mean ------------------------------------------------------
template <class T, class A> static void sum() {
  using W = typename A::AccumulatorT;
  using UW = std::conditional_t<std::is_integral_v<W>, std::make_unsigned_t<std::conditional_t<std::is_integral_v<W>, W, int>>, W>;
  OptionalValue<T> init = opt<T>("init", "init_present");
  A a = vp_any<bool>("default") ? A() : A(init);
  init = a.initial;
  vp_assert(!init.present || a.initial.present, "initial value");
  W s = num<W>("state");
  bool sp = vp_any<bool>("state_present");
  a.accumulator.present = sp; a.accumulator.value = s;
  T v = num<T>("v");
  unsigned op = vp_nd_range("op", 0, 2);
  if (op == 0) {
    a.Reset();
    vp_assert(a.accumulator.present == init.present && same(a.accumulator.value, static_cast<W>(init.value)), "Reset: the initial value");
    vp_assert(same_opt(a.GetResult(), init), "the sum of nothing is the initial value, or missing");
    vp_assert(init.present || init.value == 0, "without an initial value sums begin at zero");
  } else if (op == 1) {
    a.Add(v);
    vp_assert(a.accumulator.present && same(a.accumulator.value, W(UW(s) + UW(W(v)))), "Add: one more term");
    vp_assert(a.GetResult().present && same(a.GetResult().value, static_cast<T>(a.accumulator.value)), "the result is the state");
  } else if constexpr (std::is_integral_v<T>) {
    int64_t n = vp_nd_size("n", uint64_t{1} << 40, 1000);
    a.AddN(n, v);
    vp_assert(a.accumulator.present && a.accumulator.value == W(UW(s) + UW(v) * UW(n)), "AddN: n more terms");
  }
}
VP_CONTRACT(sum_int32) { sum<int32_t, SumAggregator<int32_t>>(); }
VP_CONTRACT(sum_int64) { sum<int64_t, SumAggregator<int64_t>>(); }
VP_CONTRACT(sum_float) { vp_opt("fp"); sum<float, SumAggregator<float>>(); }
VP_CONTRACT(cum_sum_int64) { sum<int64_t, SumPartialAccumulator<int64_t>>(); }
// The state after one more element is f(state, element), or the element itself when there was none.
template <class T, class A, class F> static void functor(F f, bool repeat) {
  using W = typename A::AccumulatorT;
  OptionalValue<T> init = opt<T>("init", "init_present");
  A a = vp_any<bool>("default") ? A() : A(init);
  init = a.initial;
  W s = num<W>("state");
  bool sp = vp_any<bool>("state_present");
  a.accumulator.present = sp; a.accumulator.value = s;
  T v = num<T>("v");
  unsigned op = vp_nd_range("op", 0, repeat ? 2 : 1);
  if (op == 0) {
    a.Reset();
    vp_assert(same_opt(a.GetResult(), init), "the fold of nothing is the initial value, or missing");
    return;
  }
  if (op == 1) a.Add(v); else a.AddN(vp_nd_size("n", uint64_t{1} << 40, 1000) + 1, v);
  vp_assert(a.accumulator.present && same(a.accumulator.value, sp ? f(s, W(v)) : W(v)), "one more element");
  vp_assert(a.GetResult().present && same(a.GetResult().value, static_cast<T>(a.accumulator.value)), "the result is the state");
}
template <class T> static T max_of(T a, T b) { if (a != a) return a; if (b != b) return b; return a < b ? b : a; }
template <class T> static T min_of(T a, T b) { if (a != a) return a; if (b != b) return b; return b < a ? b : a; }
VP_CONTRACT(max_int64) { functor<int64_t, MaxAggregator<int64_t>>(max_of<int64_t>, true); }
VP_CONTRACT(max_float) { functor<float, MaxAggregator<float>>(max_of<float>, true); }
VP_CONTRACT(min_int32) { functor<int32_t, MinAggregator<int32_t>>(min_of<int32_t>, true); }
VP_CONTRACT(min_double) { functor<double, MinAggregator<double>>(min_of<double>, true); }
VP_CONTRACT(cum_max_int64) { functor<int64_t, MaxPartialAccumulator<int64_t>>(max_of<int64_t>, true); }
VP_CONTRACT(cum_min_double) { functor<double, MinPartialAccumulator<double>>(min_of<double>, true); }
VP_CONTRACT(prod_int32) { functor<int32_t, ProdAggregator<int32_t>>([](int32_t a, int32_t b) { return int32_t(uint32_t(a) * uint32_t(b)); }, false); }
VP_CONTRACT(prod_int64) { functor<int64_t, ProdAggregator<int64_t>>([](int64_t a, int64_t b) { return int64_t(uint64_t(a) * uint64_t(b)); }, false); }
VP_CONTRACT(mean) {
  MeanAggregator<double> a;
  int64_t c = a.accumulator_count = vp_nd_size("count", uint64_t{1} << 40, 1000), n = vp_nd_size("n", uint64_t{1} << 40, 1000);
  double s = a.accumulator_sum = vp_any<double>("sum"), v = vp_any<double>("v");
  unsigned op = vp_nd_range("op", 0, 3);
  if (op == 0) { a.Reset(); vp_assert(a.accumulator_count == 0 && a.accumulator_sum == 0 && !a.GetResult().present, "the mean of nothing is missing"); }
  if (op == 1) { a.Add(v); vp_assert(a.accumulator_count == c + 1 && same(a.accumulator_sum, s + v), "one more term"); }
  double vn = v * double(n);
  if (op == 2) { a.AddN(n, v); vp_assert(a.accumulator_count == c + n && same(a.accumulator_sum, s + vn), "n more terms"); }
  if (op == 3) vp_assert(a.GetResult().present == (c != 0), "the mean is present exactly when there is an element");
}
VP_CONTRACT(weighted_average) {
  WeightedAverageAccumulator<double> a;
  double s = a.weighted_value_sum_ = vp_any<double>("sum"), w = a.weight_sum_ = vp_any<double>("weights"), v = vp_any<double>("v"), u = vp_any<double>("u");
  unsigned op = vp_nd_range("op", 0, 2);
  if (op == 0) { a.Reset(); vp_assert(a.weighted_value_sum_ == 0 && a.weight_sum_ == 0, "Reset"); }
  if (op == 1) { a.Add(v, u); vp_assert(same(a.weighted_value_sum_, s + v * u) && same(a.weight_sum_, w + u), "one more term"); }
  if (op == 2) vp_assert(same(a.GetResult(), s / w), "weighted sum over the sum of weights");
}
// ---- collapse, arg min / arg max ---------------------------------------------
// State invariant: without an element, nothing; otherwise the first element, whether it is NaN, and whether all equal it.
template <class T> static void collapse() {
  CollapseAccumulator<T> a;
  bool sp = a.present_ = vp_any<bool>("seen"), se = a.all_equal_ = vp_any<bool>("equal");
  T first = a.value_ = num<T>("first"), v = num<T>("v");
  a.is_nan_ = sp ? first != first : vp_any<bool>("is_nan");
  unsigned op = vp_nd_range("op", 0, 2);
  if (op == 0) { a.Reset(); vp_assert(!a.GetResult().present && !a.present_, "nothing to collapse"); return; }
  if (op == 1) a.Add(v); else a.AddN(vp_nd_size("n", uint64_t{1} << 40, 1000) + 1, v);
  bool eq = sp ? se && same(v, first) : true;
  vp_assert(a.present_ && a.all_equal_ == eq && same(a.value_, sp ? first : v), "one more element");
  vp_assert(!std::is_floating_point_v<T> || a.is_nan_ == (a.value_ != a.value_), "NaN is remembered");
  vp_assert(same_opt(OptionalValue<T>(a.GetResult()), eq ? OptionalValue<T>(sp ? first : v) : OptionalValue<T>()), "the common value, or missing");
}
VP_CONTRACT(collapse_int32) { collapse<int32_t>(); }
VP_CONTRACT(collapse_double) { collapse<double>(); }
// a beats the best so far: a NaN beats any number, and the first of equals stays.
template <class T> static bool beats(T best, T v, bool max) { return best == best && (v != v || (max ? v > best : v < best)); }
template <class T, class A> static void arg(bool max, A& a, T& best, OptionalValue<int64_t>& where) {
  int64_t index = a.index_ = vp_nd_size("index", uint64_t{1} << 40, 100);
  T b0 = best = num<T>("best");
  OptionalValue<int64_t> w0 = where = opt<int64_t>("where", "found"), v2;
  OptionalValue<T> v = opt<T>("v", "present");
  int64_t n = vp_nd_size("n", uint64_t{1} << 40, 100);
  unsigned op = vp_nd_range("op", 0, 2);
  if (op == 0) { a.Reset(); vp_assert(a.index_ == 0 && !a.GetResult().present, "nothing found in an empty group"); return; }
  vp_assume(op == 1 || n > 0);
  if (op == 1) a.Add(v); else a.AddN(n, v);
  bool better = v.present && (!w0.present || beats(b0, v.value, max));
  vp_assert(a.index_ == index + (op == 1 ? 1 : n), "position of the next element");
  vp_assert(same_opt(a.GetResult(), better ? OptionalValue<int64_t>(index) : w0), "position of the best element so far");
  vp_assert(!a.GetResult().present || same(best, better ? v.value : b0), "the best element so far");
}
VP_CONTRACT(arg_min_int32) { ArgMinAggregator<int32_t> a; arg<int32_t>(false, a, a.min_, a.arg_min_); }
VP_CONTRACT(arg_min_double) { ArgMinAggregator<double> a; arg<double>(false, a, a.min_, a.arg_min_); }
VP_CONTRACT(arg_max_int64) { ArgMaxAggregator<int64_t> a; arg<int64_t>(true, a, a.max_, a.arg_max_); }
VP_CONTRACT(arg_max_float) { ArgMaxAggregator<float> a; arg<float>(true, a, a.max_, a.arg_max_); }

#ifndef VP_SYMBOLIC
// ---- accumulators that collect a group (bounded: groups of up to 9 elements) --
// Runs `groups` groups through one accumulator object; ref(group) gives the
// expected results, one per group or one per element.
template <class T> static std::vector<T> group(uint64_t max) {
  std::vector<T> g(vp_native_random(max + 1));
  bool few = vp_native_random(2);
  for (auto& x : g) {
    x = T(int64_t(vp_native_random(few ? 3 : 40)) - (few ? 1 : 20));
    if constexpr (std::is_floating_point_v<T>) { if (vp_native_random(15) == 0) x = std::numeric_limits<T>::quiet_NaN(); if (vp_native_random(15) == 0) x = -std::numeric_limits<T>::infinity(); }
  }
  return g;
}
template <class F> static void groups(F f) { for (int k = 1 + vp_native_random(4); k-- > 0;) f(); }
// now and then a group that is left unread before the next one is started
template <class F> static void unread(F f) { if (vp_native_random(3) == 0) f(); }
template <class T> static bool nan(T x) { return x != x; }
template <class T> static void median_cdf() {
  MedianAggregator<T> m;
  float q = vp_native_random(4) ? vp_native_random(9) / 8.f : vp_native_random(1001) / 1000.f;
  InverseCdfAccumulator<T> c(q);
  groups([&] {
    auto g = group<T>(9);
    unread([&] { m.Reset(); c.Reset(); for (T x : group<T>(4)) { m.Add(x); c.Add(x); } });
    m.Reset(); c.Reset();
    for (T x : g) { m.Add(x); c.Add(x); }
    OptionalValue<T> rm = m.GetResult(), rc = c.GetResult();
    bool any_nan = std::any_of(g.begin(), g.end(), nan<T>);
    vp_assert(rm.present == !g.empty() && rc.present == !g.empty(), "present exactly for a non-empty group");
    if (g.empty()) return;
    if (any_nan) { vp_assert(nan(rm.value) && nan(rc.value), "NaN in the group gives NaN"); return; }
    std::sort(g.begin(), g.end());
    vp_assert(rm.value == g[(g.size() - 1) / 2], "the lower median");
    int64_t at = int64_t(std::ceil(q * g.size())) - 1;
    vp_assert(rc.value == g[std::min<int64_t>(std::max<int64_t>(at, 0), g.size() - 1)], "the element at the quantile");
  });
  vp_assert(m.GetStatus().ok() && c.GetStatus().ok(), "no error");
}
VP_BOUNDED(median_inverse_cdf_int) { median_cdf<int32_t>(); }
VP_BOUNDED(median_inverse_cdf_double) { median_cdf<double>(); }
VP_BOUNDED(inverse_cdf_argument) {
  float q = vp_any<float>("q");
  InverseCdfAccumulator<int> c(q);
  vp_assert(c.GetStatus().ok() == (q >= 0 && q <= 1), "the quantile must be in [0, 1]");
  c.Reset(); c.Add(3);
  vp_assert(c.GetResult().present == c.GetStatus().ok(), "no result after an error");
}
template <class T> static void ranks() {
  bool desc = vp_native_random(2);
  OrdinalRankAccumulator<T, int64_t> o(desc);
  DenseRankAccumulator<T> d(desc);
  groups([&] {
    auto g = group<T>(9);
    std::vector<int64_t> tie(g.size());
    for (auto& t : tie) t = vp_native_random(3);
    unread([&] { o.Reset(); d.Reset(); for (T x : group<T>(4)) { o.Add(x, 1); d.Add(x); } if (vp_native_random(2)) { o.FinalizeFullGroup(); d.FinalizeFullGroup(); } });
    o.Reset(); d.Reset();
    for (size_t i = 0; i < g.size(); ++i) { o.Add(g[i], tie[i]); d.Add(g[i]); }
    o.FinalizeFullGroup(); d.FinalizeFullGroup();
    for (size_t i = 0; i < g.size(); ++i) {
      int64_t below = 0;
      std::vector<T> smaller; int64_t nans = 0;
      for (size_t j = 0; j < g.size(); ++j) {
        bool less = desc ? g[j] > g[i] : g[j] < g[i];
        bool before;
        if (nan(g[i]) || nan(g[j])) before = nan(g[j]) ? nan(g[i]) && j < i : nan(g[i]);
        else before = less || (g[j] == g[i] && (tie[j] < tie[i] || (tie[j] == tie[i] && j < i)));
        below += before;
        if (less || (nan(g[i]) && !nan(g[j]))) smaller.push_back(g[j]);
      }
      if (!nan(g[i]) || std::count_if(g.begin(), g.end(), nan<T>) == 1) vp_assert(o.GetResult() == below, "ordinal rank: the number of elements before it");
      else { int64_t r = o.GetResult(); vp_assert(r >= int64_t(smaller.size()) && r < int64_t(g.size()), "NaNs are last"); }
      std::sort(smaller.begin(), smaller.end());
      int64_t distinct = std::unique(smaller.begin(), smaller.end()) - smaller.begin(), r = d.GetResult();
      if (!nan(g[i])) vp_assert(r == distinct, "dense rank: the number of distinct elements before it");
      else vp_assert(r >= distinct, "NaNs are last");
      (void)nans;
    }
  });
}
VP_BOUNDED(ranks_int) { ranks<int64_t>(); }
VP_BOUNDED(ranks_float) { ranks<float>(); }
VP_BOUNDED(inverse_mapping) {
  InverseMappingAccumulator a;
  bool bad = false;
  groups([&] {
    int64_t n = vp_native_random(8);
    std::vector<OptionalValue<int64_t>> p(n);
    std::vector<int64_t> perm(n);
    for (int64_t i = 0; i < n; ++i) { perm[i] = i; std::swap(perm[i], perm[vp_native_random(i + 1)]); }
    for (int64_t i = 0; i < n; ++i) if (vp_native_random(4)) p[i] = perm[i];
    if (n && vp_native_random(4) == 0) p[vp_native_random(n)] = int64_t(vp_native_random(n + 2)) - 1;
    unread([&] { a.Reset(); a.Add(1); a.Add(0); if (vp_native_random(2)) { a.FinalizeFullGroup(); if (vp_native_random(2)) a.GetResult(); } });
    a.Reset();
    for (auto x : p) a.Add(x);
    a.FinalizeFullGroup();
    std::vector<OptionalValue<int64_t>> r;
    for (int64_t i = 0; i < n; ++i) r.push_back(a.GetResult());
    bool here = false;
    for (int64_t i = 0; i < n; ++i) for (int64_t j = 0; j <= i; ++j) if (p[i].present && (p[i].value < 0 || p[i].value >= n || (j < i && p[j] == p[i]))) here = true;
    bad |= here;
    vp_assert(a.GetStatus().ok() == !bad, "an error exactly if some group was no permutation");
    if (here) return;
    for (int64_t i = 0; i < n; ++i) {
      OptionalValue<int64_t> e;
      for (int64_t j = 0; j < n; ++j) if (p[j].present && p[j].value == i) e = j;
      vp_assert(r[i] == e, "position of i in the permutation");
    }
  });
}
template <class T, class W> static void weighted_cdf() {
  using R = typename CDFTypeTraits<T>::return_type;
  WeightedCDFAccumulator<T, W> a;
  groups([&] {
    auto g = group<T>(9);
    std::vector<W> w(g.size());
    for (auto& x : w) x = vp_native_random(8);
    bool any_nan = std::any_of(g.begin(), g.end(), nan<T>);
    unread([&] { a.Reset(); for (T x : group<T>(4)) a.Add(x, W(2)); if (vp_native_random(2)) a.FinalizeFullGroup(); });
    a.Reset();
    for (size_t i = 0; i < g.size(); ++i) a.Add(g[i], w[i]);
    a.FinalizeFullGroup();
    double total = 0;
    for (W x : w) total += x;
    for (size_t i = 0; i < g.size(); ++i) {
      R r = a.GetResult();
      if (any_nan) { vp_assert(nan(r), "NaN in the group gives NaN"); continue; }
      double s = 0;
      for (size_t j = 0; j < g.size(); ++j) if (g[j] <= g[i]) s += w[j];
      vp_assert(same(r, R(R(s) / total)), "weight of the elements not above it over the total weight");
    }
  });
}
VP_BOUNDED(weighted_cdf_int) { weighted_cdf<int64_t, float>(); }
VP_BOUNDED(weighted_cdf_float) { weighted_cdf<float, double>(); }
VP_BOUNDED(weighted_cdf_double) { weighted_cdf<double, int64_t>(); }
VP_BOUNDED(string_join) {
  std::string sep(vp_native_random(3), '-');
  StringJoinAggregator<Text> a(sep);
  groups([&] {
    a.Reset();
    std::string e;
    int n = vp_native_random(5);
    for (int i = 0; i < n; ++i) {
      std::string s(vp_native_random(4), 'a' + i);
      a.Add(s);
      e += (i ? sep : "") + s;
    }
    vp_assert(a.GetResult().present == (n > 0) && (n == 0 || a.GetResult().value == e), "joined in order");
  });
}
template <class T> static void group_by() {
  int64_t counter = vp_native_random(3);
  GroupByAccumulator<T> a(&counter);
  bool failed = false;
  groups([&] {
    a.Reset();
    auto g = group<T>(9);
    std::map<T, int64_t> seen;
    for (T x : g) {
      int64_t next = counter;
      a.Add(x);
      if (nan(x)) { failed = true; vp_assert(!a.GetStatus().ok() && counter == next, "NaN is no key"); continue; }
      auto it = seen.find(x);
      vp_assert(a.GetResult() == (it == seen.end() ? next : it->second) && counter == next + (it == seen.end()), "a new id for a new key, the same id for the same key");
      seen[x] = a.GetResult();
    }
    vp_assert(a.GetStatus().ok() == !failed, "an error exactly after a NaN");
  });
}
VP_BOUNDED(group_by_int) { group_by<int32_t>(); }
VP_BOUNDED(group_by_double) { group_by<double>(); }
VP_BOUNDED(array_take_over) {
  ArrayTakeOverAccumulator<int64_t> a;
  bool bad = false;
  groups([&] {
    int64_t n = vp_native_random(8);
    std::vector<OptionalValue<int64_t>> v(n), o(n);
    for (auto& x : v) if (vp_native_random(4)) x = vp_native_random(100);
    for (auto& x : o) if (vp_native_random(4)) x = vp_native_random(10) ? vp_native_random(n) : int64_t(vp_native_random(n + 3)) - 1;
    a.Reset();
    for (int64_t i = 0; i < n; ++i) a.Add(v[i], o[i]);
    a.FinalizeFullGroup();
    for (int64_t i = 0; i < n; ++i) {
      bool out = o[i].present && (o[i].value < 0 || o[i].value >= n);
      bad |= out;
      vp_assert(a.GetResult() == (o[i].present && !out ? v[o[i].value] : OptionalValue<int64_t>()), "the element at the offset, or missing");
    }
    vp_assert(a.GetStatus().ok() == !bad, "an error exactly for an offset outside the group");
  });
}
#endif
