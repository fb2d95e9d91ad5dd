// Contracts for arolla/dense_array/edge.{h,cc}
#ifdef VP_SYMBOLIC
#define NDEBUG        // inserters without their debug-only end pointer
#define VP_NODCHECK   // (DCHECKs are still executed in the native runs)
#endif
#include <algorithm>
#include <vector>
#include "vp.h"
#include "models.h"
#include "dense.h"
#include "arolla/dense_array/edge.h"
#include "arolla/dense_array/edge.cc"
#ifndef VP_SYMBOLIC
#include "arolla/array/edge.h"
#endif
using namespace arolla;
constexpr uint64_t kMax = uint64_t{1} << 40;
#ifdef VP_SYMBOLIC
// Stand-in with the contract of bitmap::CountBits that matters here: all bits
// are counted exactly when all are set. (CountBits itself: P03.)
static bool count_is_full; static int64_t count_gap;
int64_t bitmap::CountBits(const Bitmap& b, int64_t, int64_t size) { return b.empty() || count_is_full ? size : count_gap; }
#endif

// ---- validation ------------------------------------------------------------
VP_CONTRACT(split_points_accepted_only_if_valid) {
  Full<int64_t> s("n", "points");
  if (kVpNative && vp_any<bool>("fix")) { std::sort(s.p, s.p + s.n); for (uint64_t i = s.n; i-- > 0;) s.p[i] = uint64_t(s.p[i]) - s.p[0]; }
  uint64_t g = vp_size("g", 12);
  VP_INV1(t, !(g < t) || s.p[g] <= s.p[g + 1]);
  VP_INV1(t, !(g <= t && t < s.n) || s.p[g] >= 0);
  VP_INV1(t, t >= s.n || s.p[t] >= 0);
  auto r = DenseArrayEdge::FromSplitPoints(s.get());
  if (r.ok()) {
    vp_assert(s.n >= 1 && s.p[0] == 0, "the points start at zero");
    vp_assert(g >= s.n - 1 || s.p[g] <= s.p[g + 1], "the points never decrease");
    vp_assert(r->edge_type() == DenseArrayEdge::SPLIT_POINTS && r->parent_size() == int64_t(s.n - 1) && r->child_size() == s.p[s.n - 1] && r->edge_values().values.begin() == s.p && r->edge_values().size() == int64_t(s.n), "sizes and contents of the edge");
    if (g < s.n - 1) vp_assert(r->split_size(g) == int64_t(uint64_t(s.p[g + 1]) - uint64_t(s.p[g])), "the size of group g");
  }
}
VP_CONTRACT(split_points_valid_are_accepted) {
  Full<int64_t> s("n", "points");
  if (kVpNative) { std::sort(s.p, s.p + s.n); if (s.n) s.p[0] = s.p[s.n - 1] < 0 ? s.p[s.n - 1] : 0; for (uint64_t i = 0; i < s.n; ++i) s.p[i] = s.p[i] < 0 ? 0 : s.p[i]; }
  vp_assume(s.n >= 1 && s.p[0] == 0);
  VP_ASSUME_FORALL2(s.p, s.n, i, j, s.p[i] <= s.p[j]);
  auto r = DenseArrayEdge::FromSplitPoints(s.get());
  vp_assert(r.ok(), "valid points are accepted");
}
VP_CONTRACT(split_points_with_missing_are_rejected) {
  Opt<int64_t> s("n", "points", "bits", "off", 40);
  uint64_t g = vp_size("g", 40);
  vp_assume(g < s.n && !s.has(g));
#ifdef VP_SYMBOLIC
  count_is_full = false; count_gap = vp_nd_range("count", 0, kMax); vp_assume(count_gap < int64_t(s.n));
#endif
  vp_assert(!DenseArrayEdge::FromSplitPoints(s.get()).ok(), "a missing point is an error");
}
VP_CONTRACT(mapping_accepted_only_if_valid) {
  Opt<int64_t> m("n", "mapping", "bits", "off", 70);
  int64_t parents = vp_any<int64_t>("parents");
  uint64_t g = vp_size("g", 70);
  if (kVpNative && vp_any<bool>("few")) { parents &= 7; for (uint64_t i = 0; i < m.n; ++i) if (i % 11) m.p[i] &= 7; }
  vp_assume(g < m.n);
  bool has = m.has(g);
  int64_t v = m.p[g];
  VP_INV2(t, x, !(g < t && has) || int64_t(x) >= v);
  VP_INV2(t, x, !(g < t && has && v < 0) || x == 1);
  auto r = DenseArrayEdge::FromMapping(m.get(), parents);
  if (r.ok()) {
    vp_assert(parents >= 0, "a parent size cannot be negative");
    vp_assert(!has || (v >= 0 && v < parents), "every present entry names a parent");
    vp_assert(r->edge_type() == DenseArrayEdge::MAPPING && r->parent_size() == parents && r->child_size() == int64_t(m.n) && r->edge_values().values.begin() == m.p, "sizes and contents of the edge");
  }
}
VP_CONTRACT(mapping_valid_is_accepted) {
  Opt<int64_t> m("n", "mapping", "bits", "off", 70);
  int64_t parents = vp_any<int64_t>("parents");
  if (kVpNative) { parents &= 7; for (uint64_t i = 0; i < m.n; ++i) if (m.has(i)) m.p[i] = parents ? (m.p[i] & 0xffff) % parents : (m.w[(i + m.off) / 32] = 0); }
  vp_assume(parents >= 0);
  VP_ASSUME_FORALL(m.p, m.n, i, !m.has(i) || (m.p[i] >= 0 && m.p[i] < parents));
  VP_INVV(x, int64_t(x) < parents);
  auto r = DenseArrayEdge::FromMapping(m.get(), parents);
  vp_assert(r.ok(), "a valid mapping is accepted");
}
VP_CONTRACT(full_mapping_accepted_exactly_if_valid) {
  Full<int64_t> m("n", "mapping");
  int64_t parents = vp_any<int64_t>("parents");
  uint64_t g = vp_size("g", 12);
  if (kVpNative && vp_any<bool>("few")) { parents &= 7; for (uint64_t i = 0; i < m.n; ++i) m.p[i] &= 7; }
  if (vp_any<bool>("valid")) {
    if (kVpNative) { parents &= 7; for (uint64_t i = 0; i < m.n; ++i) m.p[i] = parents ? (m.p[i] & 0xffff) % parents : -1; }
    vp_assume(parents >= 0);
    VP_ASSUME_FORALL(m.p, m.n, i, m.p[i] >= 0 && m.p[i] < parents);
    VP_INVV(x, int64_t(x) < parents);
    vp_assert(DenseArrayEdge::FromMapping(m.get(), parents).ok(), "a valid mapping is accepted");
  } else {
    VP_INV2(t, x, !(g < t) || int64_t(x) >= m.p[g]);
    VP_INV2(t, x, !(g < t && m.p[g] < 0) || x == 1);
    auto r = DenseArrayEdge::FromMapping(m.get(), parents);
    if (r.ok()) vp_assert(parents >= 0 && (g >= m.n || (m.p[g] >= 0 && m.p[g] < parents)), "every entry names a parent");
  }
}
static void uniform_groups(int64_t parents, int64_t group) {
  __int128 children = __int128(parents) * group;
  uint64_t g = vp_size("g", 20);
  bool bad = parents < 0 || group < 0 || children != int64_t(children);
  VpFactory heap;
  RawBufferFactory* factory = &heap;
  int64_t* m = nullptr;
  VpFixedFactory fixed(nullptr);
  if (!kVpNative && !bad) { m = vp_array<int64_t>("mem", parents + 1); fixed.p = m; factory = &fixed; }
  vp_opt("plain"); vp_opt("noauto"); vp_opt("narrow=43");
  if (bad) vp_opt("wide_mul");
  VP_INV1(t, t <= uint64_t(parents) + 1);
  VP_INVP(m, t, t <= uint64_t(parents) + 1);
  VP_INVPV(m, t, x, x == t);
  VP_INV1(t, !(m && t == uint64_t(parents) + 1) || uint64_t(m[parents]) == uint64_t(children));
  VP_INV1(t, !(m && g < t && t <= uint64_t(parents) + 1) || uint64_t(m[g]) == g * uint64_t(group));
  auto r = DenseArrayEdge::FromUniformGroups(parents, group, *factory);
  vp_assert(r.ok() == !bad, "an error exactly for negative sizes or when the number of children does not fit");
  if (!r.ok()) return;
  vp_assume(g <= uint64_t(parents));
  vp_assert(r->edge_type() == DenseArrayEdge::SPLIT_POINTS && r->parent_size() == parents && r->child_size() == int64_t(children) && r->edge_values().size() == parents + 1, "sizes of the edge");
  vp_assert(r->edge_values().bitmap.empty() && uint64_t(r->edge_values().values[g]) == g * uint64_t(group), "group g begins at g times the group size");
}
VP_CONTRACT(uniform_groups_valid) {
  uint64_t parents = vp_size("parents", 20), group = vp_nd_size("group", 1 << 22, 1 << 22);
  uniform_groups(parents, group);
}
VP_CONTRACT(uniform_groups_any) {
  int64_t parents = vp_any<int64_t>("parents"), group = vp_any<int64_t>("group");
  if (kVpNative && vp_any<bool>("small")) parents = parents % 20;
  __int128 children = __int128(parents) * group;
  vp_assume(parents < 0 || group < 0 || children != int64_t(children) || (kVpNative && parents <= 1000));
  uniform_groups(parents, group);
}
// ---- conversions -----------------------------------------------------------
// n points of a valid split-points edge.
struct Splits {
  uint64_t n; int64_t* p;
  Splits(const char* name_n, const char* name, uint64_t hi = 8) : n(vp_size(name_n, hi)), p(vp_array_biased<int64_t>(name, n, 0, 40)) {
    if (kVpNative && n) {
      int64_t at = 0;
      for (uint64_t i = 0; i < n; ++i) { uint64_t d = p[i] & 0xffff; p[i] = i ? at += (d % 5 == 4 ? 40 + d % 7 : d % 5) : 0; }
    }
    vp_assume(n >= 1 && p[0] == 0);
  }
  DenseArrayEdge get() const { return DenseArrayEdge(DenseArrayEdge::SPLIT_POINTS, n - 1, p[n - 1], {vp_buffer(p, n)}); }
};
#define SORTED(s) VP_ASSUME_FORALL2(s.p, s.n, i, j, s.p[i] <= s.p[j])
VP_CONTRACT(to_mapping) {
  Splits s("n", "points");
  SORTED(s);
  uint64_t b = vp_size("parent", 8), c = vp_nd_size("child", kMax, 60);
  if (kVpNative && c >= uint64_t(s.p[s.n - 1])) c = 0;
  if (kVpNative) for (b = 0; b + 2 < s.n && uint64_t(s.p[b + 1]) <= c;) ++b;
  vp_assume(b + 1 < s.n && uint64_t(s.p[b]) <= c && c < uint64_t(s.p[b + 1]));
  int64_t* m = nullptr;
  VpFactory heap;
  VpFixedFactory fixed(nullptr);
  if (!kVpNative) { m = vp_array<int64_t>("mem", s.p[s.n - 1]); fixed.p = m; }
  vp_opt("plain"); vp_opt("narrow=43"); vp_opt("noauto");
  VP_INV1(t, t < s.n);
  VP_INVP(m, t, !(c < t) || m[c] == int64_t(b));
  VP_INVPP(m, t, m, u, t <= u);
  VP_INV1(t, !(m && b < t && t < s.n) || m[c] == int64_t(b));
  auto r = s.get().ToMappingEdge(kVpNative ? static_cast<RawBufferFactory&>(heap) : fixed);
  vp_assert(r.edge_type() == DenseArrayEdge::MAPPING && r.parent_size() == int64_t(s.n - 1) && r.child_size() == s.p[s.n - 1] && r.edge_values().size() == s.p[s.n - 1] && r.edge_values().bitmap.empty(), "sizes of the mapping");
  vp_assert(r.edge_values().values[c] == int64_t(b), "each child maps to the parent whose group contains it");
}
VP_CONTRACT(to_mapping_of_mapping) {
  Opt<int64_t> m("n", "mapping", "bits", "off", 70);
  int64_t parents = vp_any<int64_t>("parents");
  VpFactory heap;
  DenseArrayEdge e = DenseArrayEdge::UnsafeFromMapping(m.get(), parents), r = e.ToMappingEdge(heap);
  vp_assert(r.edge_type() == DenseArrayEdge::MAPPING && r.parent_size() == parents && r.child_size() == int64_t(m.n) && r.edge_values().values.begin() == m.p && r.edge_values().bitmap.begin() == m.w && r.edge_values().bitmap_bit_offset == m.off, "a mapping is returned as it is");
}
// A full mapping of n children into `parents` parents.
struct Mapping {
  uint64_t n, parents; int64_t* p;
  Mapping() : n(vp_size("n", 30)), parents(vp_size("parents", 12)), p(vp_array_biased<int64_t>("mapping", n, 0, 40)) {
    if (kVpNative) for (uint64_t i = 0; i < n; ++i) p[i] = parents ? (p[i] & 0xffff) % parents : -1;
    vp_assume(parents >= 1 || n == 0);
  }
  DenseArrayEdge get() const { return DenseArrayEdge::UnsafeFromMapping({vp_buffer(p, n)}, parents); }
};
#ifndef VP_SYMBOLIC
VP_BOUNDED(to_split_points) {
  Mapping m;
  if (kVpNative) std::sort(m.p, m.p + m.n);
  VP_ASSUME_FORALL(m.p, m.n, i, uint64_t(m.p[i]) < m.parents);
  VP_ASSUME_FORALL2(m.p, m.n, i, j, m.p[i] <= m.p[j]);
  uint64_t b = vp_size("parent", 12), c = vp_size("child", 30);
  vp_assume(b <= m.parents && c < m.n);
  bool before = uint64_t(m.p[c]) < b;
  int64_t* r = nullptr;
  VpFactory heap;
  VpFixedFactory fixed(nullptr);
  if (!kVpNative) { r = vp_array_biased<int64_t>("mem", m.parents + 1, 0, 41); fixed.p = r; }
  vp_opt("plain"); vp_opt("narrow=43");
  VP_INVPV(r, q, x, q == x + 1);
  VP_INVP(r, q, q <= m.parents + 1);
  VP_INV2(t, x, t <= m.n && (t == 0 ? x == 0 : x == uint64_t(m.p[t - 1])));
  VP_INVP(r, q, !(b < q) || (uint64_t(r[b]) <= m.n && (int64_t(c) < r[b]) == before));
  auto e = m.get().ToSplitPointsEdge(kVpNative ? static_cast<RawBufferFactory&>(heap) : fixed);
  vp_assert(e.ok(), "a sorted full mapping has split points");
  vp_assert(e->edge_type() == DenseArrayEdge::SPLIT_POINTS && e->parent_size() == int64_t(m.parents) && e->edge_values().size() == int64_t(m.parents + 1), "sizes of the edge");
  int64_t s = e->edge_values().values[b];
  vp_assert(s >= 0 && s <= int64_t(m.n) && (int64_t(c) < s) == before, "exactly the children of the earlier groups come before a split point");
  vp_assert(e->child_size() == int64_t(m.n), "every child is in a group");
}
VP_BOUNDED(to_split_points_unsorted) {
  Mapping m;
  VP_ASSUME_FORALL(m.p, m.n, i, uint64_t(m.p[i]) < m.parents);
  uint64_t g = vp_size("g", 30);
  vp_assume(g + 1 < m.n && m.p[g] > m.p[g + 1]);
  int64_t* r = nullptr;
  VpFactory heap;
  VpFixedFactory fixed(nullptr);
  if (!kVpNative) { r = vp_array_biased<int64_t>("mem", m.parents + 1, 0, 41); fixed.p = r; }
  vp_opt("plain"); vp_opt("narrow=43");
  VP_INVPV(r, q, x, q == x + 1);
  VP_INVP(r, q, q <= m.parents + 1);
  VP_INV2(t, x, t <= g + 1 && (t == 0 ? x == 0 : x == uint64_t(m.p[t - 1])));
  vp_assert(!m.get().ToSplitPointsEdge(kVpNative ? static_cast<RawBufferFactory&>(heap) : fixed).ok(), "an unsorted mapping has no split points");
}

// ---- relations: an edge denotes a list child -> parent (or none) -----------
using Rel = std::vector<int64_t>;  // -1: no parent
template <class E> Rel relation(const E& e);
template <> Rel relation(const DenseArrayEdge& e) {
  Rel r;
  const auto& v = e.edge_values();
  if (e.edge_type() == DenseArrayEdge::MAPPING) for (int64_t i = 0; i < v.size(); ++i) r.push_back(v.present(i) ? v.values[i] : -1);
  else for (int64_t g = 0; g + 1 < v.size(); ++g) for (int64_t i = v.values[g]; i < v.values[g + 1]; ++i) r.push_back(g);
  return r;
}
template <> Rel relation(const ArrayEdge& e) {
  Rel r;
  const auto& v = e.edge_values();
  if (e.edge_type() == ArrayEdge::MAPPING) for (int64_t i = 0; i < v.size(); ++i) r.push_back(v[i].present ? v[i].value : -1);
  else for (int64_t g = 0; g + 1 < v.size(); ++g) for (int64_t i = v[g].value; i < v[g + 1].value; ++i) r.push_back(g);
  return r;
}
static DenseArray<int64_t> dense(const Rel& r, bool sliced) {
  std::vector<OptionalValue<int64_t>> v;
  int64_t skip = sliced ? vp_native_random(40) : 0;
  for (int64_t i = 0; i < skip; ++i) v.push_back(i % 2 ? OptionalValue<int64_t>() : OptionalValue<int64_t>(77));
  for (int64_t x : r) v.push_back(x < 0 ? OptionalValue<int64_t>() : OptionalValue<int64_t>(x));
  auto a = CreateDenseArray<int64_t>(std::vector<OptionalValue<int64_t>>(v));
  return skip ? a.Slice(skip, a.size() - skip) : a;
}
// The array in one of its forms: dense, sparse with a missing-id value, constant.
static Array<int64_t> array(const Rel& r) {
  Array<int64_t> a(dense(r, vp_native_random(2)));
  switch (vp_native_random(4)) {
    case 0: return a;
    case 1: return a.ToSparseForm();
    case 2: if (!r.empty()) return a.ToSparseForm(a[vp_native_random(r.size())]); return a;
    default: {
      for (int64_t x : r) if (x != r[0]) return a;
      return r.empty() ? a : Array<int64_t>(r.size(), r[0] < 0 ? OptionalValue<int64_t>() : OptionalValue<int64_t>(r[0]));
    }
  }
}
static DenseArrayEdge to(DenseArrayEdge::EdgeType t, const Rel& r, int64_t n, DenseArrayEdge*) {
  auto e = t == DenseArrayEdge::MAPPING ? DenseArrayEdge::FromMapping(dense(r, vp_native_random(2)), n) : DenseArrayEdge::FromSplitPoints(dense(r, vp_native_random(2)));
  vp_assert(e.ok(), "a valid edge is accepted");
  return *e;
}
static ArrayEdge to(DenseArrayEdge::EdgeType t, const Rel& r, int64_t n, ArrayEdge*) {
  auto e = t == DenseArrayEdge::MAPPING ? ArrayEdge::FromMapping(array(r), n) : ArrayEdge::FromSplitPoints(array(r));
  vp_assert(e.ok(), "a valid edge is accepted");
  return *e;
}
// A random valid edge with `parents` parents; kind 0: split points, 1: full
// sorted mapping, 2: full mapping, 3: any mapping
template <class E> E random_edge(int64_t parents, int kind, int64_t children = -1) {
  if (children < 0) children = vp_native_random(12);
  if (vp_native_random(6) == 0) children += 40;
  Rel r;
  for (int64_t i = 0; i < children && parents; ++i) r.push_back(kind == 3 && vp_native_random(3) == 0 ? -1 : int64_t(vp_native_random(parents)));
  if (kind == 3 && !parents) r.assign(children, -1);
  if (kind < 2) std::sort(r.begin(), r.end());
  if (kind) return to(DenseArrayEdge::MAPPING, r, parents, (E*)nullptr);
  Rel s{0};
  for (int64_t g = 0; g < parents; ++g) s.push_back(std::upper_bound(r.begin(), r.end(), g) - r.begin());
  return to(DenseArrayEdge::SPLIT_POINTS, s, parents, (E*)nullptr);
}
template <class E> void compose() {
  for (int round = 0; round < 20; ++round) {
    int n = 1 + vp_native_random(4), kinds = vp_native_random(4);
    std::vector<E> es;
    int64_t parents = vp_native_random(8), top = parents;
    bool mapping = false;
    for (int i = 0; i < n; ++i) {
      int kind = kinds == 0 ? 0 : vp_native_random(4);
      es.push_back(random_edge<E>(parents, kind));
      mapping |= kind != 0;
      parents = es.back().child_size();
    }
    Rel want = relation(es[0]);
    for (int i = 1; i < n; ++i) {
      Rel step = relation(es[i]), next;
      for (int64_t p : step) next.push_back(p < 0 ? -1 : want[p]);
      want = next;
    }
    auto c = E::ComposeEdges(es);
    vp_assert(c.ok(), "matching edges compose");
    vp_assert(c->parent_size() == top && c->child_size() == int64_t(want.size()), "sizes of the composition");
    vp_assert((c->edge_type() == E::MAPPING) == mapping, "split points exactly when all are");
    vp_assert(relation(*c) == want, "the composition relates a child to the parent reached by following the edges");
    if (n > 1) {
      es.push_back(es[vp_native_random(n)]);
      bool fits = es[n - 1].child_size() == es[n].parent_size();
      vp_assert(E::ComposeEdges(es).ok() == fits, "an error exactly when the sizes do not match");
    }
  }
  vp_assert(!E::ComposeEdges(absl::Span<const E>()).ok(), "nothing to compose is an error");
}
VP_BOUNDED(compose_dense_edges) { compose<DenseArrayEdge>(); }
VP_BOUNDED(compose_array_edges) { compose<ArrayEdge>(); }
template <class E> void convert() {
  for (int round = 0; round < 20; ++round) {
    int64_t parents = vp_native_random(7);
    int kind = vp_native_random(4);
    E e = random_edge<E>(parents, kind);
    Rel r = relation(e);
    auto m = e.ToMappingEdge();
    vp_assert(m.edge_type() == E::MAPPING && m.parent_size() == parents && m.child_size() == e.child_size() && relation(m) == r, "the mapping form has the same relation");
    bool splittable = kind == 0 || (std::is_sorted(r.begin(), r.end()) && std::find(r.begin(), r.end(), -1) == r.end());
    auto s = e.ToSplitPointsEdge();
    vp_assert(s.ok() == splittable, "split points exist exactly for full sorted mappings");
    if (s.ok()) {
      vp_assert(s->edge_type() == E::SPLIT_POINTS && s->parent_size() == parents && s->child_size() == e.child_size() && relation(*s) == r, "the split-points form has the same relation");
      for (int64_t g = 0; g < parents; ++g) vp_assert(s->split_size(g) == std::count(r.begin(), r.end(), g), "group sizes count the children");
    }
    E other = vp_native_random(2) ? random_edge<E>(parents, vp_native_random(4), r.size()) : splittable && vp_native_random(2) ? *s : m;
    if (vp_native_random(8) == 0) other = random_edge<E>(parents + 1, 3, r.size());
    bool same = other.parent_size() == parents && relation(other) == r;
    vp_assert(e.IsEquivalentTo(other) == same && other.IsEquivalentTo(e) == same, "edges are equivalent exactly when they relate the same rows");
  }
}
VP_BOUNDED(convert_dense_edges) { convert<DenseArrayEdge>(); }
VP_BOUNDED(convert_array_edges) { convert<ArrayEdge>(); }
VP_BOUNDED(array_edge_validation) {
  for (int round = 0; round < 40; ++round) {
    int64_t n = vp_native_random(10), parents = int64_t(vp_native_random(8)) - 1;
    bool sparse = vp_native_random(3) == 0, wide = vp_native_random(3) == 0;
    std::vector<OptionalValue<int64_t>> v;
    for (int64_t i = 0; i < n; ++i) v.push_back(sparse && vp_native_random(4) == 0 ? OptionalValue<int64_t>() : OptionalValue<int64_t>(int64_t(vp_native_random(wide ? 9 : 4)) - (wide && vp_native_random(4) == 0)));
    if (vp_native_random(3) == 0) v.assign(n, OptionalValue<int64_t>(int64_t(vp_native_random(9)) - 1));
    bool full = true, valid = parents >= 0;
    for (auto& x : v) { full &= x.present; if (x.present) valid &= x.value >= 0 && x.value < parents; }
    auto d = CreateDenseArray<int64_t>(std::vector<OptionalValue<int64_t>>(v));
    Array<int64_t> a(d);
    int form = vp_native_random(4);
    if (form == 1) a = a.ToSparseForm();
    if (form == 2 && n) a = a.ToSparseForm(v[vp_native_random(n)]);
    bool constant = true;
    for (auto& x : v) constant &= x == v[0];
    if (form == 3 && n && constant) a = Array<int64_t>(n, v[0]);
    auto em = ArrayEdge::FromMapping(a, parents);
    vp_assert(em.ok() == valid, "a mapping is accepted exactly when every present entry names a parent");
    vp_assert(DenseArrayEdge::FromMapping(d, parents).ok() == valid, "the same for dense arrays");
    if (em.ok()) vp_assert(em->parent_size() == parents && em->child_size() == n && relation(*em) == relation(DenseArrayEdge::UnsafeFromMapping(d, parents)) && relation(em->ToDenseArrayEdge()) == relation(*em) && relation(ArrayEdge::FromDenseArrayEdge(em->ToDenseArrayEdge())) == relation(*em), "the mapping is kept in every form");
    if (full && vp_native_random(2)) { for (int64_t i = 0; i < n; ++i) v[i].value = i == 0 ? 0 : v[i - 1].value + int64_t(vp_native_random(4)) - (vp_native_random(12) == 0); d = CreateDenseArray<int64_t>(std::vector<OptionalValue<int64_t>>(v)); a = Array<int64_t>(d); if (form == 1) a = a.ToSparseForm(); if (form == 2 && n) a = a.ToSparseForm(v[vp_native_random(n)]); }
    bool splits = n > 0 && full && v[0].value == 0;
    for (int64_t i = 1; i < n && splits; ++i) splits = v[i - 1].value <= v[i].value;
    auto es = ArrayEdge::FromSplitPoints(a);
    vp_assert(es.ok() == splits && DenseArrayEdge::FromSplitPoints(d).ok() == splits, "points are accepted exactly when they start at zero and never decrease");
    if (splits) vp_assert(es->parent_size() == n - 1 && es->child_size() == v[n - 1].value && relation(*es) == relation(es->ToDenseArrayEdge()) && relation(*es) == relation(*DenseArrayEdge::FromSplitPoints(d)), "sizes and relation of the split points");
    int64_t g = vp_native_random(6), k = vp_native_random(5);
    auto u = ArrayEdge::FromUniformGroups(g, k);
    vp_assert(u.ok() && u->parent_size() == g && u->child_size() == g * k, "uniform groups");
    for (int64_t i = 0; i < g; ++i) vp_assert(u->split_size(i) == k, "each uniform group has the given size");
  }
}
#endif
