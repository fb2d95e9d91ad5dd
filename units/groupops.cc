// Contracts for arolla/dense_array/ops/dense_group_ops.h and arolla/array/group_op.h
#ifdef VP_SYMBOLIC
#define NDEBUG
#define VP_NODCHECK   // (DCHECKs are executed in the native runs)
#else
#include <optional>
#include <string>
#include <vector>
#endif
#include "vp.h"
#include "models.h"
#include "dense.h"
#include "arolla/dense_array/ops/util.h"
#include "arolla/qexpr/aggregation_ops_interface.h"
using namespace arolla;
#ifdef VP_SYMBOLIC
// Stand-in with the contract of row iteration over one dense array (proved
// for the real function as P15 `rows`): every row of the range, in order.
namespace arolla {
absl::Status SizeMismatchError(std::initializer_list<int64_t>) { return absl::InvalidArgumentError(""); }
namespace dense_ops_internal {
template <> class DenseOpsUtil<meta::type_list<int32_t>> {
 public:
  template <class Fn> static void Iterate(Fn&& fn, int64_t from, int64_t to, const DenseArray<int32_t>& a) {
    for (int64_t i = from; i < to; ++i) fn(i, a.present(i), a.values.begin()[i]);
  }
  template <class Fn> static void IterateFromZero(Fn&& fn, int64_t n, const DenseArray<int32_t>& a) { Iterate(fn, 0, n, a); }
};
}  // namespace dense_ops_internal
}  // namespace arolla
#endif
#include "arolla/dense_array/ops/dense_group_ops.h"
// ---- proofs: one group ----
// An accumulator that checks what it is given: the present children of
// [vp_from, vp_to), each once, in order.
static const int32_t* vp_vals; static const bitmap_word* vp_bits; static int vp_off; static uint64_t vp_n;
static uint64_t vp_next;   // children before it have been passed or are missing
static uint64_t vp_skip;   // a missing child that must not be passed
static uint64_t vp_seen;   // how often child vp_child was passed
static uint64_t vp_child; static bool vp_full, vp_done;
static bool vp_has(uint64_t i) { return vp_full | ((vp_bits[(i + vp_off) >> 5] >> ((i + vp_off) & 31)) & 1); }
template <AccumulatorType type> struct Check {
  using result_type = int64_t;
  using parent_types = meta::type_list<>;
  using child_types = meta::type_list<int64_t, int32_t>;  // with ids
  static constexpr bool IsAggregator() { return type == AccumulatorType::kAggregator; }
  static constexpr bool IsPartial() { return type == AccumulatorType::kPartial; }
  static constexpr bool IsFull() { return type == AccumulatorType::kFull; }
  int64_t last = -1;
  void Reset() { last = -1; }
  void Add(int64_t id, int32_t v) {
    vp_assert(uint64_t(id) >= vp_next && uint64_t(id) < vp_n, "children of the group only, in order");
    vp_assert(vp_has(id) && v == vp_vals[id], "a present child with its value");
    vp_seen = vp_seen + (uint64_t(id) == vp_child);
    vp_next = uint64_t(id) + 1;
    last = id;
  }
  void FinalizeFullGroup() { vp_done = true; }
  int64_t GetResult() { return 3 * last + 1; }
  absl::Status GetStatus() { return absl::OkStatus(); }
};
template <class A> using Impl = dense_ops_internal::DenseGroupOpsImpl<A, meta::type_list<>, meta::type_list<int32_t>, true>;
static bool bitc(bitmap_word w, int i) { return (w >> i) & 1; }
struct Memory2 final : RawBufferFactory {
  void* p[2] = {nullptr, nullptr}; int k = 0; VpFactory heap;
  std::tuple<RawBufferPtr, void*> CreateRawBuffer(size_t n) override { if (kVpNative) return heap.CreateRawBuffer(n); return {nullptr, p[k++]}; }
  std::tuple<RawBufferPtr, void*> ReallocRawBuffer(RawBufferPtr&& o, void* d, size_t a, size_t b) override { return heap.ReallocRawBuffer(std::move(o), d, a, b); }
};
struct Children {
  Opt<int32_t> c; uint64_t g; bool has;
  explicit Children(bool full) : c("n", "vals", "w", "off", 70), g(vp_size("g", 70)) {
    vp_full = full; if (vp_full) c.off = 0;
    vp_vals = c.p; vp_bits = c.w; vp_off = c.off; vp_n = c.n; vp_next = 0; vp_seen = 0; vp_done = false; vp_child = g;
    vp_assume(g < c.n);
    has = vp_full | c.has(g);
  }
  DenseArray<int32_t> get() const { return vp_full ? DenseArray<int32_t>{vp_buffer(c.p, c.n)} : c.get(); }
};
static void scalar_edge(bool full) {
  Children x(full); bool has = x.has; uint64_t g = x.g, n = x.c.n;
  vp_opt("plain");
  VP_INVV(t, vp_next <= t);
  VP_INV1(t, t <= n);
  VP_INV1(t, vp_seen == (has & (g < t)));
  Memory2 f;
  auto r = Impl<Check<AccumulatorType::kAggregator>>(&f).Apply(DenseArrayGroupScalarEdge(n), x.get());
  vp_assert(r.ok() && vp_seen == has, "every present child once");
}
VP_CONTRACT(scalar_edge_full) { scalar_edge(true); }
VP_CONTRACT(scalar_edge_bits) { scalar_edge(false); }
VP_CONTRACT(scalar_edge_sizes) {
  Children x(vp_any<bool>("full")); int64_t m = vp_size("m", 70);
  vp_assume(uint64_t(m) != x.c.n);
  Memory2 f;
  auto r = Impl<Check<AccumulatorType::kAggregator>>(&f).Apply(DenseArrayGroupScalarEdge(m), x.get());
  vp_assert(!r.ok() && vp_seen == 0, "an error when the sizes differ");
}
// One group of a split points edge.
template <AccumulatorType type> static void group(bool full) {
  Children x(full); bool has = x.has; uint64_t g = x.g, n = x.c.n;
  uint64_t groups = vp_size("groups", 20), p = vp_size("p", 19); vp_assume(p < groups);
  int64_t* s = vp_array<int64_t>("splits", groups + 1);
  if (kVpNative) { for (uint64_t i = 0; i <= groups; ++i) s[i] = int64_t(uint64_t(s[i]) % (n + 1)); std::sort(s, s + groups + 1); }
  uint64_t from = s[p], to = s[p + 1];
  vp_assume(from <= to && to <= n);
  bool in = g >= from && g < to;
  vp_next = from; vp_n = to;
  vp_opt("plain");
  constexpr bool agg = type == AccumulatorType::kAggregator;
  VP_INVV(t, vp_next <= t);
  VP_INV1(t, t <= to && t >= from);
  VP_INV1(t, vp_seen == (has & in & (g < t)));
  Memory2 f;
  uint64_t res = agg ? groups : n;
  int64_t* m = nullptr; bitmap_word* rb = nullptr; uint64_t q = agg ? p : g;
  if (!kVpNative) { f.p[0] = m = vp_array<int64_t>("mem", res); f.p[1] = rb = vp_array<bitmap_word>("membits", (res + 31) / 32); }
  VP_INV1(t, !(m && !agg && has && in && g < t) || m[g] == 3 * int64_t(g) + 1);
  VP_INV1(t, !(rb && !agg && in && g < t) || bitc(rb[g >> 5], g & 31) == has);
  VP_INV1(t, !(rb && !agg && !(in && g < t)) || !bitc(rb[g >> 5], g & 31));
  DenseArrayBuilder<int64_t> b(res, &f);
  std::vector<int64_t> rows;
  Check<type> acc; acc.Reset();
  Impl<Check<type>>(&f).ProcessSingleGroupWithSplitPoints(p, DenseArray<int64_t>{vp_buffer(s, groups + 1)}, x.get(), rows, acc, b);
  vp_assert(vp_seen == (has & in), "every present child of the group once");
  DenseArray<int64_t> r = std::move(b).Build();
  vp_assert(uint64_t(r.size()) == res, "size of the result");
  if (agg) vp_assert((r.bitmap.empty() || bitc(r.bitmap.begin()[p >> 5], p & 31)) && r.values.begin()[p] == acc.GetResult(), "one result per group");
  else {
    bool present = r.bitmap.empty() || bitc(r.bitmap.begin()[g >> 5], g & 31);
    if (in) vp_assert(present == has, "a result for every present child");
    if (in && has) vp_assert(r.values.begin()[g] == 3 * int64_t(g) + 1, "the accumulator's result after that child");
  }
}
VP_CONTRACT(split_points_aggregator_full) { group<AccumulatorType::kAggregator>(true); }
VP_CONTRACT(split_points_partial_full) { group<AccumulatorType::kPartial>(true); }
#ifndef VP_SYMBOLIC
#include "arolla/array/edge.h"
#include "arolla/array/group_op.h"
#include "rnd.h"
// An accumulator that remembers everything that is done to it, in order.
static bool vp_may_fail;
static int64_t mixed(int64_t h, int64_t v) { return int64_t(uint64_t(h) * 0x9e3779b97f4a7c15u + uint64_t(v) + 1) ^ int64_t(uint64_t(h) >> 29); }
template <AccumulatorType T, class R, class PL, class CL> struct Trace;
template <AccumulatorType T, class R, class... Ps, class... Cs>
struct Trace<T, R, meta::type_list<Ps...>, meta::type_list<Cs...>> final : Accumulator<T, R, meta::type_list<Ps...>, meta::type_list<Cs...>> {
  int64_t h = 1; int k = 0; bool failed = false;
  void mix(int64_t v) { h = mixed(h, v); if (v == 4 && vp_may_fail) failed = true; }
  template <class V> void mix(const OptionalValue<V>& v) { h = mixed(h, v.present); if (v.present) h = mixed(h, v.value); }
  void Reset(view_type_t<Ps>... p) override { h = 7; k = 0; ((h = mixed(h, 3), mix(p)), ...); }
  void Add(view_type_t<Cs>... c) override { h = mixed(h, 99); (mix(c), ...); }
  void FinalizeFullGroup() override { h = mixed(h, 55); k = 0; }
  view_type_t<R> GetResult() override {
    if constexpr (T == AccumulatorType::kFull) h = mixed(h, ++k);
    if constexpr (is_optional_v<R>) return R{(h >> 7) % 4 != 0, h}; else return h;
  }
  absl::Status GetStatus() override { return failed ? absl::InternalError("") : absl::OkStatus(); }
  Trace() = default;
};
template <class X> using Col = std::vector<std::optional<strip_optional_t<X>>>;
template <class X> static bool ok(const Col<X>& c, int64_t i) { return is_optional_v<X> || c[i]; }
template <class X> static X arg(const Col<X>& c, int64_t i) { if constexpr (is_optional_v<X>) return X(c[i]); else return *c[i]; }
template <AccumulatorType T, class R, bool kId, class PL, class CL> struct Case;
template <AccumulatorType T, class R, bool kId, class... Ps, class... Cs> struct Case<T, R, kId, meta::type_list<Ps...>, meta::type_list<Cs...>> {
  using Acc = Trace<T, R, meta::type_list<Ps...>, std::conditional_t<kId, meta::type_list<int64_t, Cs...>, meta::type_list<Cs...>>>;
  using Dense = dense_ops_internal::DenseGroupOpsImpl<Acc, meta::type_list<Ps...>, meta::type_list<Cs...>, kId>;
  template <bool dense> using Sparse = array_ops_internal::ArrayGroupOpImpl<Acc, meta::type_list<Ps...>, meta::type_list<Cs...>, kId, dense>;
  static constexpr bool kAgg = T == AccumulatorType::kAggregator;
  // one fresh accumulator per group
  static std::vector<std::optional<int64_t>> want(int64_t parents, const std::vector<std::optional<int64_t>>& map, const Col<Ps>&... p, const Col<Cs>&... c, bool& failed) {
    std::vector<std::optional<int64_t>> r(kAgg ? parents : map.size());
    failed = false;
    for (int64_t g = 0; g < parents; ++g) {
      if (!(ok<Ps>(p, g) && ... && true)) continue;
      Acc a; a.Reset(arg<Ps>(p, g)...);
      std::vector<int64_t> rows;
      auto result = [&](int64_t i) { OptionalValue<int64_t> v(a.GetResult()); if (v.present) r[i] = v.value; };
      for (int64_t i = 0; i < int64_t(map.size()); ++i) {
        if (!map[i] || *map[i] != g || !(ok<Cs>(c, i) && ... && true)) continue;
        if constexpr (kId) a.Add(i, arg<Cs>(c, i)...); else a.Add(arg<Cs>(c, i)...);
        rows.push_back(i);
        if (T == AccumulatorType::kPartial) result(i);
      }
      if (kAgg) result(g);
      if (T == AccumulatorType::kFull) { a.FinalizeFullGroup(); for (int64_t i : rows) result(i); }
      failed |= a.failed;
    }
    return r;
  }
  static void same(const DenseArray<int64_t>& r, const std::vector<std::optional<int64_t>>& e) {
    vp_assert(r.size() == int64_t(e.size()), "size of the result");
    vp_assert(r.CheckBitmapMatchesValues(), "presence bits for all entries");
    for (size_t i = 0; i < e.size(); ++i) vp_assert(eqo<int64_t>(r[i], e[i]), "each group's result from that group's rows");
  }
  static void same(const Array<int64_t>& r, const std::vector<std::optional<int64_t>>& e) { is<int64_t>(r, e); }
  template <class Res> static void check(const Res& r, bool failed, const std::vector<std::optional<int64_t>>& e) {
    vp_assert(r.ok() == !failed, "fails exactly if an accumulator does");
    if (r.ok()) same(*r, e);
  }
  static void check1(const absl::StatusOr<R>& r, bool failed, const std::vector<std::optional<int64_t>>& e) {
    vp_assert(r.ok() == !failed, "fails exactly if the accumulator does");
    if (r.ok()) vp_assert(eqo<int64_t>(OptionalValue<int64_t>(*r), e[0]), "the result from all rows");
  }
  static std::vector<int64_t> splits(int64_t parents, int64_t n) {
    std::vector<int64_t> s{0};
    for (int64_t i = 1; i < parents; ++i) s.push_back(vp_native_random(n + 1));
    s.push_back(n);
    std::sort(s.begin(), s.end());
    return s;
  }
  static std::vector<std::optional<int64_t>> mapping(const std::vector<int64_t>& s, int64_t n) {
    std::vector<std::optional<int64_t>> m(n);
    for (size_t g = 0; g + 1 < s.size(); ++g) for (int64_t i = s[g]; i < s[g + 1]; ++i) m[i] = g;
    return m;
  }
  static int64_t rnd_parents() { return 1 + (vp_native_random(2) ? vp_native_random(6) : vp_native_random(3) ? vp_native_random(40) : vp_native_random(300)); }
  static void dense() {
    int64_t n = rnd_n(), parents = rnd_parents(), wrong = vp_native_random(8);
    if constexpr (sizeof...(Ps) == 0) { if (wrong == 0) wrong = 9; }
    vp_may_fail = vp_native_random(3) == 0;
    bool failed; Dense op(GetHeapBufferFactory());
    std::tuple<Arr<strip_optional_t<Ps>>...> p{Arr<strip_optional_t<Ps>>(parents + (wrong == 0), false)...};
    std::tuple<Arr<strip_optional_t<Cs>>...> c{Arr<strip_optional_t<Cs>>(n + (wrong == 1), false)...};
    std::apply([&](auto&... p) { std::apply([&](auto&... c) {
      DenseArrayEdge edge; std::vector<std::optional<int64_t>> map;
      if (vp_native_random(2)) {
        Arr<int64_t> m(n, false);
        std::vector<int64_t> v;
        for (int64_t i = 0; i < n; ++i) { v.push_back(vp_native_random(parents)); map.push_back(m.e[i] ? std::optional<int64_t>(v[i]) : std::nullopt); }
        m.d.values = Buffer<int64_t>::Create(v.begin(), v.end());
        edge = *DenseArrayEdge::FromMapping(m.d, parents);
      } else {
        auto s = splits(parents, n); map = mapping(s, n);
        edge = *DenseArrayEdge::FromSplitPoints(CreateFullDenseArray<int64_t>(s.begin(), s.end()));
      }
      auto r = op.Apply(edge, p.d..., c.d...);
      if (wrong < 2) { vp_assert(!r.ok(), "an error when sizes differ"); return; }
      auto e0 = want(parents, map, p.e..., c.e..., failed);
      check(r, failed, e0);
      if ((ok<Ps>(p.e, 0) && ... && true)) {
        std::vector<std::optional<int64_t>> all(n, 0);
        auto e = want(1, all, p.e..., c.e..., failed);
        auto r1 = op.Apply(DenseArrayGroupScalarEdge(n), arg<Ps>(p.e, 0)..., c.d...);
        if constexpr (kAgg) check1(r1, failed, e); else check(r1, failed, e);
        vp_assert(!op.Apply(DenseArrayGroupScalarEdge(n + 1), arg<Ps>(p.e, 0)..., c.d...).ok(), "an error when sizes differ");
      }
    }, c); }, p);
  }
  template <bool kDense> static void array() {
    int64_t n = rnd_n(), parents = rnd_parents(), wrong = vp_native_random(8);
    if constexpr (sizeof...(Ps) == 0) { if (wrong == 0) wrong = 9; }
    vp_may_fail = vp_native_random(3) == 0;
    bool failed; Sparse<kDense> op(GetHeapBufferFactory());
    std::tuple<RArr<strip_optional_t<Ps>>...> p{RArr<strip_optional_t<Ps>>(parents + (wrong == 0))...};
    std::tuple<RArr<strip_optional_t<Cs>>...> c{RArr<strip_optional_t<Cs>>(n + (wrong == 1))...};
    std::apply([&](auto&... p) { std::apply([&](auto&... c) {
      ArrayEdge edge; std::vector<std::optional<int64_t>> map;
      if (vp_native_random(2)) {
        RArr<int64_t> m(n);
        std::vector<int64_t> v;
        DenseArray<int64_t> d = m.a.dense_data();
        for (int64_t i = 0; i < d.size(); ++i) v.push_back(vp_native_random(parents));
        d.values = Buffer<int64_t>::Create(v.begin(), v.end());
        OptionalValue<int64_t> other = m.a.missing_id_value();
        if (other.present) other.value = vp_native_random(parents);
        m.a = Array<int64_t>(n, m.a.id_filter(), d, other);
        for (int64_t i = 0; i < n; ++i) { auto x = m.a[i]; map.push_back(x.present ? std::optional<int64_t>(x.value) : std::nullopt); }
        edge = *ArrayEdge::FromMapping(m.a, parents);
      } else {
        auto s = splits(parents, n); map = mapping(s, n);
        edge = *ArrayEdge::FromSplitPoints(Array<int64_t>(CreateFullDenseArray<int64_t>(s.begin(), s.end())));
      }
      auto r = op.Apply(edge, p.a..., c.a...);
      if (wrong < 2) { vp_assert(!r.ok(), "an error when sizes differ"); return; }
      auto e0 = want(parents, map, p.e..., c.e..., failed);
      check(r, failed, e0);
      if ((ok<Ps>(p.e, 0) && ... && true)) {
        std::vector<std::optional<int64_t>> all(n, 0);
        auto e = want(1, all, p.e..., c.e..., failed);
        auto r1 = op.Apply(ArrayGroupScalarEdge(n), arg<Ps>(p.e, 0)..., c.a...);
        if constexpr (kAgg) check1(r1, failed, e); else check(r1, failed, e);
        vp_assert(!op.Apply(ArrayGroupScalarEdge(n + 1), arg<Ps>(p.e, 0)..., c.a...).ok(), "an error when sizes differ");
      }
    }, c); }, p);
  }
};
using OptInt = OptionalValue<int64_t>;
template <class... T> using L = meta::type_list<T...>;
template <AccumulatorType T, class F> static void kinds(F f) {
  switch (vp_native_random(6)) {
    case 0: return f(Case<T, int64_t, false, L<>, L<int64_t>>());
    case 1: return f(Case<T, OptInt, true, L<>, L<int64_t>>());
    case 2: return f(Case<T, OptInt, false, L<int64_t>, L<int64_t>>());
    case 3: return f(Case<T, int64_t, true, L<OptInt>, L<OptInt>>());
    case 4: return f(Case<T, OptInt, false, L<>, L<int64_t, OptInt>>());
    case 5: return f(Case<T, OptInt, false, L<OptInt, int64_t>, L<OptInt, int64_t>>());
  }
}
template <AccumulatorType T> static void group_dense() { kinds<T>([](auto c) { c.dense(); }); }
template <AccumulatorType T> static void group_array() { kinds<T>([](auto c) { if (vp_native_random(3)) c.template array<false>(); else c.template array<true>(); }); }
VP_BOUNDED(dense_aggregator) { group_dense<AccumulatorType::kAggregator>(); }
VP_BOUNDED(dense_partial) { group_dense<AccumulatorType::kPartial>(); }
VP_BOUNDED(dense_full) { group_dense<AccumulatorType::kFull>(); }
VP_BOUNDED(array_aggregator) { group_array<AccumulatorType::kAggregator>(); }
VP_BOUNDED(array_partial) { group_array<AccumulatorType::kPartial>(); }
VP_BOUNDED(array_full) { group_array<AccumulatorType::kFull>(); }
#endif
