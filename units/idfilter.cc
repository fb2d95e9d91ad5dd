// Contracts for arolla/array/id_filter.{h,cc}
#ifdef VP_SYMBOLIC
#define NDEBUG  // the debug-only re-validation of ids is executed natively
#define VP_NODCHECK
#endif
#include <algorithm>
#include <vector>
#include "vp.h"
#include "factory.h"
#include "absl/types/span.h"
#include "arolla/array/id_filter.h"
#include "arolla/array/id_filter.cc"
using namespace arolla;
#include "ids.h"
VP_CONTRACT(construct) {
  uint64_t size = vp_nd_size("size", kMax, 20);
  Ids a("n", "ids", "offset", size, 0);
  ASCENDING(a, size);
  IN_RANGE(a, size);
  IdFilter f(size, buffer(a.p, a.n), a.off);
  if (a.n == 0) vp_assert(f.type() == IdFilter::kEmpty, "no ids: the filter is empty");
  else if (a.n == size) vp_assert(f.type() == IdFilter::kFull, "all ids: the filter is full");
  else vp_assert(f.type() == IdFilter::kPartial && f.ids_offset() == a.off && f.ids().begin() == a.p && f.ids().size() == int64_t(a.n), "otherwise the filter lists the ids");
}
VP_CONTRACT(id_to_offset) {
  uint64_t size = vp_nd_size("size", kMax, 20);
  Ids a("n", "ids", "offset", size);
  vp_assume(a.n < size);
  ASCENDING(a, size);
  IN_RANGE(a, size);
  uint64_t g = vp_nd_size("g", kMax, 12);
  vp_assume(g < a.n);
  int64_t id = vp_nd_size("id", kMax, 20);
  vp_assume(id < int64_t(size));
  int64_t key = id + a.off;
  bool before = a.p[g] < key;
  vp_opt("plain"); vp_opt("noauto"); vp_opt("selects"); vp_opt("narrow=43");
  VP_INV2(t, d, !(g < t) || before);
  VP_INV2(t, d, !(g >= t + d) || !before);
  VP_INV2(t, d, t <= a.n && d <= a.n && t + d <= a.n);
  VP_INV2(t, d, !(t <= a.n && d <= a.n && t + d < a.n) || a.p[t + d] >= key);
  IdFilter f(size, buffer(a.p, a.n), a.off);
  OptionalValue<int64_t> r = f.IdToOffset(id);
  if (a.p[g] == key) vp_assert(r.present && r.value == int64_t(g), "a listed id is found, at its rank");
  if (r.present) vp_assert(r.value >= 0 && r.value < int64_t(a.n) && a.p[r.value] == key, "a found id is listed");
  if (r.present) vp_assert(f.IdsOffsetToId(r.value) == id, "the position maps back to the id");
}
VP_CONTRACT(id_to_offset_full_empty) {
  int64_t id = vp_nd_size("id", kMax, 20);
  IdFilter full(IdFilter::kFull), empty(IdFilter::kEmpty);
  auto r = full.IdToOffset(id);
  vp_assert(r.present && r.value == id, "a full filter maps each id to itself");
  vp_assert(!empty.IdToOffset(id).present, "an empty filter has no ids");
}
VP_CONTRACT(is_same) {
  uint64_t size = vp_nd_size("size", kMax, 20);
  Ids a("n", "ids", "offset", size);
  uint64_t from = vp_nd_size("from", kMax, 3), m = vp_nd_size("m", kMax, 12);
  int64_t off2 = a.off + (vp_any<bool>("shift") ? 1 : 0);
  vp_assume(from < a.n && m >= 1 && m <= a.n - from && a.n < size);
  ASCENDING(a, size);
  IN_RANGE(a, size);
  IdFilter full(IdFilter::kFull), empty(IdFilter::kEmpty);
  IdFilter f(IdFilter::kEmpty), h(IdFilter::kEmpty);
  f.type_ = h.type_ = IdFilter::kPartial;
  f.ids_ = buffer(a.p, a.n); f.ids_offset_ = a.off;
  h.ids_ = buffer(a.p + from, m); h.ids_offset_ = off2;
  bool same = from == 0 && m == a.n && off2 == a.off;
  vp_assert(f.IsSame(h) == same, "same exactly when the id lists and the offset are the same");
  vp_assert(!f.IsSame(full) && !f.IsSame(empty) && !full.IsSame(empty) && full.IsSame(full) && empty.IsSame(empty), "different kinds are never the same");
}
VP_CONTRACT(common_ids_complete) {
  uint64_t size = vp_nd_size("size", kMax, 20);
  Ids a("n1", "ids1", "offset1", size), b("n2", "ids2", "offset2", size);
  ASCENDING(a, size);
  ASCENDING(b, size);
  IN_RANGE(a, size);
  IN_RANGE(b, size);
  uint64_t g1 = vp_nd_size("g1", kMax, 12), g2 = vp_nd_size("g2", kMax, 12);
  vp_assume(g1 < a.n && g2 < b.n);
  if (kVpNative) { uint64_t k = g1; for (uint64_t i = 0; i < a.n; ++i) for (uint64_t j = 0; j < b.n; ++j) { uint64_t x = (i + k) % a.n; if (a.p[x] - a.off == b.p[j] - b.off) { g1 = x; g2 = j; i = a.n; break; } } }
  int64_t id = a.p[g1] - a.off;
  vp_assume(id == b.p[g2] - b.off);
  uint64_t seen = 0;
  vp_opt("plain"); vp_opt("noauto"); vp_opt("narrow=43"); vp_opt("narrowcnt=43");
  VP_INVP(a.p, t, t < a.n);
  VP_INVP(b.p, t, t < b.n);
  VP_INVPV(a.p, t, x, t < a.n && int64_t(x) == a.p[t] - a.off);
  VP_INVPV(b.p, t, x, t < b.n && int64_t(x) == b.p[t] - b.off);
  VP_INVV(x, seen <= 1 && (seen == 1) == (int64_t(x) > id));
  IdFilter::ForEachCommonId(absl::Span<const int64_t>(a.p, a.n), a.off, absl::Span<const int64_t>(b.p, b.n), b.off,
                            [&](int64_t i, int64_t, int64_t) { seen += i == id; });
  vp_assert(seen == 1, "a common id is visited exactly once");
}
VP_CONTRACT(common_ids_sound) {
  uint64_t size = vp_nd_size("size", kMax, 20);
  Ids a("n1", "ids1", "offset1", size), b("n2", "ids2", "offset2", size);
  ASCENDING(a, size);
  ASCENDING(b, size);
  IN_RANGE(a, size);
  IN_RANGE(b, size);
  int64_t next = 0;  // the least id that may come
  vp_opt("plain"); vp_opt("noauto"); vp_opt("narrow=43"); vp_opt("narrowcnt=43");
  VP_INVP(a.p, t, t < a.n);
  VP_INVP(b.p, t, t < b.n);
  VP_INVPV(a.p, t, x, t < a.n && int64_t(x) == a.p[t] - a.off);
  VP_INVPV(b.p, t, x, t < b.n && int64_t(x) == b.p[t] - b.off);
  VP_INVV(x, next <= int64_t(x));
  IdFilter::ForEachCommonId(absl::Span<const int64_t>(a.p, a.n), a.off, absl::Span<const int64_t>(b.p, b.n), b.off,
                            [&](int64_t i, int64_t p1, int64_t p2) {
                              vp_assert(p1 >= 0 && p1 < int64_t(a.n) && a.p[p1] - a.off == i, "the position in the first filter");
                              vp_assert(p2 >= 0 && p2 < int64_t(b.n) && b.p[p2] - b.off == i, "the position in the second filter");
                              vp_assert(i >= next, "in increasing order");
                              next = i + 1;
                            });
}
// The union of two sparse partial filters; m is the memory of the result.
template <class Check> static void merge(Ids& a, Ids& b, uint64_t size, int64_t* m, Check check) {
  IdFilter fa(IdFilter::kEmpty), fb(IdFilter::kEmpty);
  fa.type_ = fb.type_ = IdFilter::kPartial;
  fa.ids_ = buffer(a.p, a.n); fa.ids_offset_ = a.off;
  fb.ids_ = buffer(b.p, b.n); fb.ids_offset_ = b.off;
  VpFixedFactory factory(m);
  IdFilter r = IdFilter::UpperBoundMerge(size, &factory, fa, fb);
  if (r.type() == IdFilter::kFull) return;  // everything is a superset
  vp_assert(r.type() == IdFilter::kPartial && r.ids_offset() == 0, "a sparse union lists its ids");
  check(r.ids().begin(), uint64_t(r.ids().size()));
}
static void sparse(Ids& a, uint64_t size) { vp_assume(a.n * 4 < size); }  // what the code asks in floating point
static void merge_complete(bool first) {
  uint64_t size = vp_nd_size("size", kMax, 60);
  Ids a("n1", "ids1", "offset1", size), b("n2", "ids2", "offset2", size);
  sparse(a, size); sparse(b, size);
  ASCENDING(a, size);
  ASCENDING(b, size);
  IN_RANGE(a, size);
  IN_RANGE(b, size);
  int64_t* m = vp_array<int64_t>("mem", a.n + b.n);
  uint64_t g = vp_nd_size("g", kMax, 12), p = vp_nd_size("p", kMax, 24);
  vp_assume(g < (first ? a.n : b.n));
  int64_t id = first ? a.p[g] - a.off : b.p[g] - b.off;  // an arbitrary id of one of the inputs
  vp_opt("plain"); vp_opt("noauto"); vp_opt("narrow=43"); vp_opt("narrowcnt=43"); vp_opt("nofp");
  VP_INVP(a.p, t, t <= a.n);
  VP_INVP(b.p, u, u <= b.n);
  VP_INVPPP(a.p, t, b.p, u, m, k, k <= t + u);
  VP_INVPP(a.p, t, m, k, k >= t && k <= t + b.n);
  VP_INVPP(b.p, t, m, k, k >= t && k <= t + a.n);
  VP_INVPP(a.p, t, m, k, !(k <= a.n + b.n && k > 0 && t < a.n) || m[k - 1] < a.p[t] - a.off);
  VP_INVPP(b.p, t, m, k, !(k <= a.n + b.n && k > 0 && t < b.n) || m[k - 1] < b.p[t] - b.off);
  VP_INVPP(a.p, t, m, k, !(first && g < t) || (k > 0 && k <= a.n + b.n && id <= m[k - 1]));
  VP_INVPP(b.p, t, m, k, !(!first && g < t) || (k > 0 && k <= a.n + b.n && id <= m[k - 1]));
  VP_INVPP(a.p, t, m, k, !(first && g >= t) || k == 0 || (k <= a.n + b.n && id > m[k - 1]));
  VP_INVPP(b.p, t, m, k, !(!first && g >= t) || k == 0 || (k <= a.n + b.n && id > m[k - 1]));
  VP_INVP(m, k, !(p + 1 < k && k <= a.n + b.n) || !(m[p] < id && id < m[p + 1]));
  VP_INVP(m, k, !(0 < k && k <= a.n + b.n) || m[0] <= a.p[0] - a.off);
  VP_INVP(m, k, !(0 < k && k <= a.n + b.n) || m[0] <= b.p[0] - b.off);
  merge(a, b, size, m, [&](const int64_t* r, uint64_t n) {
    vp_assert(n > 0 && r[0] <= id && id <= r[n - 1], "an input id is within the range of the result");
    if (p + 1 < n) vp_assert(!(r[p] < id && id < r[p + 1]), "no input id falls between two consecutive result ids");
  });
}
VP_CONTRACT(merge_complete_first) { merge_complete(true); }
VP_CONTRACT(merge_complete_second) { merge_complete(false); }
VP_CONTRACT(merge_sound) {
  uint64_t size = vp_nd_size("size", kMax, 60);
  Ids a("n1", "ids1", "offset1", size), b("n2", "ids2", "offset2", size);
  sparse(a, size); sparse(b, size);
  ASCENDING(a, size);
  ASCENDING(b, size);
  IN_RANGE(a, size);
  IN_RANGE(b, size);
  int64_t* m = vp_array<int64_t>("mem", a.n + b.n);
  uint64_t p = vp_nd_size("p", kMax, 24);
  int64_t v = vp_nd_size("v", kMax, 24);
  if (kVpNative) for (uint64_t i = 0; i < a.n || i < b.n; ++i) vp_assume((i >= a.n || a.p[i] - a.off != v) && (i >= b.n || b.p[i] - b.off != v));
  VP_ASSUME_FORALL(a.p, a.n, i, a.p[i] - a.off != v);
  VP_ASSUME_FORALL(b.p, b.n, i, b.p[i] - b.off != v);
  vp_opt("plain"); vp_opt("noauto"); vp_opt("narrow=43"); vp_opt("narrowcnt=43"); vp_opt("nofp");
  VP_INVP(a.p, t, t <= a.n);
  VP_INVP(b.p, u, u <= b.n);
  VP_INVPPP(a.p, t, b.p, u, m, k, k <= t + u);
  VP_INVPP(a.p, t, m, k, k >= t && k <= t + b.n);
  VP_INVPP(b.p, t, m, k, k >= t && k <= t + a.n);
  VP_INVPP(a.p, t, m, k, !(k <= a.n + b.n && k > 0 && t < a.n) || m[k - 1] < a.p[t] - a.off);
  VP_INVPP(b.p, t, m, k, !(k <= a.n + b.n && k > 0 && t < b.n) || m[k - 1] < b.p[t] - b.off);
  VP_INVP(m, k, !(p < k && k <= a.n + b.n) || m[p] != v);
  VP_INVP(m, k, !(p < k && k <= a.n + b.n) || (m[p] >= 0 && m[p] < int64_t(size)));
  VP_INVP(m, k, !(p + 1 < k && k <= a.n + b.n) || m[p] < m[p + 1]);
  merge(a, b, size, m, [&](const int64_t* r, uint64_t n) {
    if (p < n) vp_assert(r[p] != v, "an id in neither input is not in the result");
    if (p < n) vp_assert(r[p] >= 0 && r[p] < int64_t(size), "the result ids are in range");
    if (p + 1 < n) vp_assert(r[p] < r[p + 1], "the result ids ascend without duplicates");
  });
}
// The remaining cases: whatever the kinds, the result contains every id of
// both filters (union), or every common id (intersection).
static IdFilter any_filter(Ids& a, uint64_t kind) {
  IdFilter f(kind == 0 ? IdFilter::kEmpty : IdFilter::kFull);
  if (kind == 1) { f.type_ = IdFilter::kPartial; f.ids_ = buffer(a.p, a.n); f.ids_offset_ = a.off; }
  return f;
}
VP_CONTRACT(merge_kinds) {
  uint64_t size = vp_nd_size("size", kMax, 60);
  Ids a("n1", "ids1", "offset1", size), b("n2", "ids2", "offset2", size);
  uint64_t ka = vp_nd_range("kind1", 0, 2), kb = vp_nd_range("kind2", 0, 2);
  ASCENDING(a, size);
  ASCENDING(b, size);
  IN_RANGE(a, size);
  IN_RANGE(b, size);
  vp_assume(ka != 1 || kb != 1);
  IdFilter fa = any_filter(a, ka), fb = any_filter(b, kb);
  VpFactory factory;
  IdFilter r = IdFilter::UpperBoundMerge(size, &factory, fa, fb);
  if (ka == 2 || kb == 2) vp_assert(r.type() == IdFilter::kFull, "the union with everything is everything");
  else if (ka == 0) vp_assert(r.IsSame(fb), "the union with nothing is the other filter");
  else vp_assert(r.IsSame(fa), "the union with nothing is the other filter");
  vp_assert(IdFilter::UpperBoundMerge(size, &factory, fa, fa).IsSame(fa), "the union of a filter with itself is the filter");
  vp_assert(IdFilter::UpperBoundMerge(size, &factory, fa).IsSame(fa), "the union of one filter is the filter");
}
VP_CONTRACT(intersect_bound) {
  uint64_t size = vp_nd_size("size", kMax, 60);
  Ids a("n1", "ids1", "offset1", size), b("n2", "ids2", "offset2", size), c("n3", "ids3", "offset3", size);
  uint64_t ka = vp_nd_range("kind1", 0, 2), kb = vp_nd_range("kind2", 0, 2), kc = vp_nd_range("kind3", 0, 2);
  ASCENDING(a, size);
  ASCENDING(b, size);
  ASCENDING(c, size);
  IN_RANGE(a, size);
  IN_RANGE(b, size);
  IN_RANGE(c, size);
  IdFilter fa = any_filter(a, ka), fb = any_filter(b, kb), fc = any_filter(c, kc);
  const IdFilter& r = IdFilter::UpperBoundIntersect(fa, fb, fc);
  vp_assert(&r == &fa || &r == &fb || &r == &fc, "the bound of an intersection is one of the filters");
  uint64_t s = r.type() == IdFilter::kFull ? ~uint64_t{0} : r.type() == IdFilter::kEmpty ? 0 : r.ids().size();
  uint64_t sa = ka == 0 ? 0 : ka == 2 ? ~uint64_t{0} : a.n, sb = kb == 0 ? 0 : kb == 2 ? ~uint64_t{0} : b.n, sc = kc == 0 ? 0 : kc == 2 ? ~uint64_t{0} : c.n;
  vp_assert(s <= sa && s <= sb && s <= sc, "it is the smallest of them");
}
