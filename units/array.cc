// Contracts for arolla/array/{array.h,array_util.h,ops_util.h}
#ifdef VP_SYMBOLIC
#define NDEBUG
#define VP_NODCHECK   // (DCHECKs are executed in the native runs)
#else
#include <optional>
#include <string>
#include <vector>
#endif
#include "vp.h"
#include "models.h"
#include "dense.h"
#include "ids.h"
#include "arolla/array/array.h"
#include "arolla/array/array_util.h"
#include "arolla/array/id_filter.cc"
#ifndef VP_SYMBOLIC
#include "arolla/array/ops_util.h"
#include "arolla/util/bytes.h"
#include "rnd.h"
#endif
using namespace arolla;

// A sparse array: n listed ids of `size`, their elements (presence read from
// bit `off` of the bitmap, all present if full), and a value for other ids.
struct Sparse {
  uint64_t size; Ids a; Opt<int64_t> d; bool full; OptionalValue<int64_t> other;
  Sparse() : Sparse(vp_any<bool>("full")) {}
  explicit Sparse(bool full) : size(vp_nd_size("size", kMax, 20)), a("n", "ids", "offset", size), d(a.n, "vals", "w", "woff"), full(full), other{vp_any<bool>("has_other"), vp_any<int64_t>("other")} {
    vp_assume(a.n < size);
    if (full) d.off = 0;
  }
  bool has(uint64_t i) const { return full | d.has(i); }
  Array<int64_t> get() {
    IdFilter f(IdFilter::kEmpty);
    f.type_ = IdFilter::kPartial; f.ids_ = buffer(a.p, a.n); f.ids_offset_ = a.off;
    return Array<int64_t>(size, f, full ? DenseArray<int64_t>{vp_buffer(d.p, d.n)} : d.get(), other);
  }
};
VP_CONTRACT(element_sparse) {
  Sparse s; Ids& a = s.a;
  ASCENDING(a, s.size);
  IN_RANGE(a, s.size);
  uint64_t g = vp_nd_size("g", kMax, 12); vp_assume(g < a.n);
  int64_t id = vp_nd_size("id", kMax, 20); vp_assume(id < int64_t(s.size));
  int64_t key = id + a.off; bool before = a.p[g] < key;
  vp_opt("plain"); vp_opt("noauto"); vp_opt("selects"); vp_opt("narrow=43");
  VP_INV2(t, d, !(g < t) || before);
  VP_INV2(t, d, !(g >= t + d) || !before);
  VP_INV2(t, d, t <= a.n && d <= a.n && t + d <= a.n);
  VP_INV2(t, d, !(t <= a.n && d <= a.n && t + d < a.n) || a.p[t + d] >= key);
  auto r = s.get()[id];
  if (a.p[g] == key) {
    vp_assert(r.present == s.has(g), "a listed id is present exactly where its entry is");
    if (s.has(g)) vp_assert(r.value == s.d.p[g], "a listed id has the value of its entry");
  }
}
VP_CONTRACT(element_sparse_unlisted) {
  Sparse s; Ids& a = s.a;
  int64_t id = vp_nd_size("id", kMax, 20); vp_assume(id < int64_t(s.size));
  int64_t key = id + a.off;
  if (kVpNative) for (uint64_t i = 0; i < a.n; ++i) vp_assume(a.p[i] != key);
  VP_ASSUME_FORALL(a.p, a.n, i, a.p[i] != key);
  IN_RANGE(a, s.size);
  vp_opt("plain"); vp_opt("noauto"); vp_opt("selects"); vp_opt("narrow=43");
  VP_INV2(t, d, t <= a.n && d <= a.n && t + d <= a.n);
  auto r = s.get()[id];
  vp_assert(r.present == s.other.present && (!r.present || r.value == s.other.value), "an id that is not listed has the value for missing ids");
}
VP_CONTRACT(element_dense_or_const) {
  Opt<int64_t> d("n", "vals", "w", "woff"); bool full = vp_any<bool>("full");
  if (full) d.off = 0;
  uint64_t g = vp_size("g", 12); vp_assume(g < d.n);
  OptionalValue<int64_t> other{vp_any<bool>("has_other"), vp_any<int64_t>("other")};
  Array<int64_t> x(full ? DenseArray<int64_t>{vp_buffer(d.p, d.n)} : d.get());
  auto r = x[g];
  vp_assert(r.present == (full | d.has(g)) && (!r.present || r.value == d.p[g]), "the element of a dense array");
  Array<int64_t> y(int64_t(d.n), other);
  auto q = y[g];
  vp_assert(q.present == other.present && (!q.present || q.value == other.value), "a constant array has the same element everywhere");
  Array<int64_t> z(int64_t(d.n), IdFilter::kFull, full ? DenseArray<int64_t>{vp_buffer(d.p, d.n)} : d.get(), other);
  vp_assert(!z.missing_id_value().present && z.IsDenseForm() && x.IsDenseForm() && y.IsConstForm(), "a dense array has no value for missing ids");
  vp_assert(x.size() == int64_t(d.n) && y.size() == int64_t(d.n) && z.size() == int64_t(d.n), "size");
}
// start and end of a slice within the listed ids
VP_CONTRACT(slice_sparse) {
  Sparse s; Ids& a = s.a;
  ASCENDING(a, s.size);
  IN_RANGE(a, s.size);
  uint64_t g = vp_nd_size("g", kMax, 12); vp_assume(g < a.n);
  int64_t from = vp_nd_size("from", kMax, 20), count = vp_nd_size("count", kMax, 20);
  vp_assume(from <= int64_t(s.size) && count <= int64_t(s.size) - from);
  int64_t k1 = a.off + from, k2 = k1 + count;
  vp_opt("plain"); vp_opt("noauto"); vp_opt("selects"); vp_opt("narrow=43");
  VP_INV2(t, d, !(g < t) || a.p[g] < k1);
  VP_INV2(t, d, !(g >= t + d) || a.p[g] >= k1);
  VP_INV2(t, d, !(g < t) || a.p[g] < k2);
  VP_INV2(t, d, !(g >= t + d) || a.p[g] >= k2);
  VP_INV2(t, d, t <= a.n && d <= a.n && t + d <= a.n);
  Array<int64_t> x = s.get(), r = x.Slice(from, count);
  vp_assert(r.size() == count, "the size of the slice");
  bool in = a.p[g] >= k1 && a.p[g] < k2;
  if (r.IsSparseForm()) {
    const int64_t* b = r.id_filter().ids().begin();
    uint64_t m = r.id_filter().ids().size(), at = b - a.p;
    vp_assert(r.id_filter().ids_offset() == k1 && uint64_t(r.dense_data().size()) == m, "ids of the slice count from its start");
    vp_assert((g >= at && g < at + m) == in, "the slice lists exactly the ids within its bounds");
    vp_assert(r.dense_data().values.begin() == s.d.p + at, "with their values");
    if (in) vp_assert(r.dense_data().present(g - at) == s.has(g), "and presence");
    vp_assert(r.missing_id_value().present == s.other.present && (!s.other.present || r.missing_id_value().value == s.other.value), "the value for missing ids is kept");
  } else if (r.IsConstForm()) {
    vp_assert(!in, "nothing listed within the bounds");
    vp_assert(r.missing_id_value().present == s.other.present && (!s.other.present || r.missing_id_value().value == s.other.value), "the value for missing ids is kept");
  } else {
    vp_assert(r.dense_data().size() == count && !r.missing_id_value().present, "all ids within the bounds are listed");
  }
}
VP_CONTRACT(slice_dense_or_const) {
  Opt<int64_t> d("n", "vals", "w", "woff"); bool full = vp_any<bool>("full");
  if (full) d.off = 0;
  uint64_t from = vp_size("from", 12), count = vp_size("count", 12), g = vp_size("g", 12);
  vp_assume(from <= d.n && count <= d.n - from && g < count);
  OptionalValue<int64_t> other{vp_any<bool>("has_other"), vp_any<int64_t>("other")};
  Array<int64_t> x(full ? DenseArray<int64_t>{vp_buffer(d.p, d.n)} : d.get());
  Array<int64_t> y = x.Slice(from, count);
  auto r = y[g];
  vp_assert(y.size() == int64_t(count) && r.present == (full | d.has(from + g)) && (!r.present || r.value == d.p[from + g]), "an element of the slice");
  Array<int64_t> z = Array<int64_t>(int64_t(d.n), other).Slice(from, count);
  auto q = z[g];
  vp_assert(z.size() == int64_t(count) && q.present == other.present && (!q.present || q.value == other.value), "an element of the slice of a constant array");
}
// All elements in order: each callback continues where the last one ended.
static void for_each(bool full) {
  Sparse s(full); Ids& a = s.a;
  ASCENDING(a, s.size);
  IN_RANGE(a, s.size);
  uint64_t g = vp_nd_size("g", kMax, 12); vp_assume(g < a.n);
  int64_t id = a.p[g] - a.off, next = 0, seen = 0;
  vp_opt("plain"); vp_opt("noauto"); vp_opt("narrow=43"); vp_opt("narrowcnt=43");
  VP_INV1(t, t <= a.n);
  VP_INV1(t, !(t < a.n) || next <= a.p[t] - a.off);
  VP_INV1(t, !(g < t) || id < next);
  VP_INV1(t, !(g >= t) || id >= next);
  VP_INV0(next >= 0 && next <= int64_t(s.size));
  VP_INV0(seen == (id < next));
  VP_INVV(x, next == int64_t(x));
  s.get().ForEach([&](int64_t i, bool p, int64_t v) {
                    vp_assert(i == next, "elements come in order");
                    if (i == id) { vp_assert(p == s.has(g) && v == s.d.p[g], "the listed element"); seen = seen + 1; }
                    next = i + 1;
                  },
                  [&](int64_t first, int64_t count, bool p, int64_t v) {
                    vp_assert(first == next && count > 0, "elements come in order");
                    vp_assert(p == s.other.present && v == s.other.value, "the value for missing ids");
                    vp_assert(!(id >= first && id < first + count), "only ids that are not listed");
                    next = first + count;
                  });
  vp_assert(next == int64_t(s.size) && seen == 1, "all elements, once");
}
VP_CONTRACT(for_each_sparse_full) { for_each(true); }
VP_CONTRACT(for_each_sparse_bits) { for_each(false); }
static void for_each_present(bool full) {
  Sparse s(full); Ids& a = s.a;
  ASCENDING(a, s.size);
  IN_RANGE(a, s.size);
  uint64_t g = vp_nd_size("g", kMax, 12); vp_assume(g < a.n);
  int64_t id = a.p[g] - a.off, next = 0, seen = 0, h = vp_nd_size("h", kMax, 20), hseen = 0; // h: not listed
  vp_assume(h < int64_t(s.size));
  if (kVpNative) for (uint64_t i = 0; i < a.n; ++i) vp_assume(a.p[i] - a.off != h);
  VP_ASSUME_FORALL(a.p, a.n, i, a.p[i] - a.off != h);
  bool has = s.has(g), oth = s.other.present;
  vp_opt("plain"); vp_opt("noauto"); vp_opt("narrow=43"); vp_opt("narrowcnt=43");
  VP_INV1(t, t <= a.n);
  VP_INV1(t, !(t < a.n) || next <= a.p[t] - a.off);
  VP_INV1(t, !(g < t) || seen == has);
  VP_INV1(t, !(g >= t) || seen == 0);
  VP_INV0(next >= 0 && next <= int64_t(s.size));
  VP_INVV(x, next <= int64_t(x));
  VP_INVV(x, hseen == (oth & (h < int64_t(x))));
  s.get().ForEachPresent([&](int64_t i, int64_t v) {
                    vp_assert(i >= next, "elements come in order");
                    vp_assert(i != h, "not an unlisted id");
                    if (i == id) { vp_assert(has && v == s.d.p[g], "the listed element"); seen = seen + 1; }
                    next = i + 1;
                  },
                  [&](int64_t first, int64_t count, int64_t v) {
                    vp_assert(first >= next && count > 0, "elements come in order");
                    vp_assert(oth && v == s.other.value, "the value for missing ids, if there is one");
                    vp_assert(!(id >= first && id < first + count), "only ids that are not listed");
                    hseen += h >= first && h < first + count;
                    next = first + count;
                  });
  vp_assert(seen == has, "a listed element is visited once if present");
  vp_assert(hseen == oth, "an unlisted one exactly if missing ids have a value");
}
VP_CONTRACT(for_each_present_sparse_full) { for_each_present(true); }
VP_CONTRACT(for_each_present_sparse_bits) { for_each_present(false); }
VP_CONTRACT(for_each_in_subset_sparse) {
  Sparse s; Ids& a = s.a; Ids b("n2", "ids2", "offset2", s.size, 0);
  ASCENDING(a, s.size);
  IN_RANGE(a, s.size);
  ASCENDING(b, s.size);
  IN_RANGE(b, s.size);
  uint64_t g = vp_nd_size("g", kMax, 12), h = vp_nd_size("h", kMax, 12); vp_assume(g < a.n && h < b.n);
  int64_t id = a.p[g] - a.off, want = b.p[h] - b.off; uint64_t k = 0; int64_t seen = 0;
  vp_opt("plain"); vp_opt("noauto"); vp_opt("narrow=43"); vp_opt("narrowcnt=43");
  VP_INVP(a.p, t, t <= a.n);
  VP_INVP(b.p, t, t <= b.n && k == t);
  VP_INVP(b.p, t, seen == (h < t));
  VP_INVPP(a.p, t, b.p, u, !(g < t && u < b.n) || id < b.p[u] - b.off);
  ArrayForEachInSubset<int64_t, int64_t>(s.get(), absl::Span<const int64_t>(b.p, b.n), b.off, [&](int64_t i, bool p, int64_t v) {
    vp_assert(k < b.n && i == b.p[k] - b.off, "the ids of the subset, in order");
    if (i == id) vp_assert(p == s.has(g) && v == s.d.p[g], "a listed element");
    if (k == h) ++seen;
    ++k;
  });
  vp_assert(k == b.n && seen == 1, "all ids of the subset");
}
#ifndef VP_SYMBOLIC
// ---- bounded native contracts: small random arrays in all forms ----
static IdFilter rnd_filter(int64_t n) { RArr<int> r(n); return r.a.id_filter(); }
template <class T> static void forms() {
  int64_t n = vp_native_random(2) ? vp_native_random(80) : vp_native_random(9);
  RArr<T> x(n); const Array<T>& a = x.a;
  is<T>(a, x.e);
  is<T>(a.ToDenseForm(), x.e);
  vp_assert(n == 0 || a.ToDenseForm().IsDenseForm(), "dense form");
  is<T>(a.MakeOwned(), x.e); is<T>(a.MakeUnowned(), x.e);
  vp_assert(a.MakeOwned().is_owned(), "owned");
  int64_t from = vp_native_random(n + 1), count = vp_native_random(n - from + 1);
  is<T>(a.Slice(from, count), {x.e.begin() + from, x.e.begin() + from + count});
  is<T>(a.ToSparseForm(), x.e);
  { auto s = a.ToSparseForm(); vp_assert(a.HasMissingIdValue() || s.IsFullForm() || s.dense_data().bitmap.empty() || n == 0 || s.IsDenseForm(), "no presence bits in sparse form"); }
  std::optional<T> other; if (vp_native_random(3)) other = Rnd<T>::value();
  is<T>(a.ToSparseForm(OptionalValue<T>(other)), x.e);
  IdFilter f = rnd_filter(n);
  Array<T> w = a.WithIds(f, OptionalValue<T>(other));
  std::vector<std::optional<T>> e = x.e;
  if (n) for (int64_t i = 0; i < n; ++i) if (!f.IdToOffset(i).present) e[i] = other;
  is<T>(w, e);
  // iteration
  int64_t at = 0;
  a.ForEach([&](int64_t id, bool p, auto v) { vp_assert(id == at && p == x.e[id].has_value() && (!p || eq<T>(v, *x.e[id])), "each element in order"); ++at; });
  vp_assert(at == n, "all elements");
  at = 0;
  a.ForEach([&](int64_t id, bool p, auto v) { vp_assert(id == at && p == x.e[id].has_value() && (!p || eq<T>(v, *x.e[id])), "each element in order"); ++at; },
            [&](int64_t id, int64_t c, bool p, auto v) { vp_assert(id == at, "in order"); for (int64_t i = id; i < id + c; ++i) vp_assert(p == x.e[i].has_value() && (!p || eq<T>(v, *x.e[i])), "each element of the run"); at += c; });
  vp_assert(at == n, "all elements");
  int64_t last = -1, present = 0;
  a.ForEachPresent([&](int64_t id, auto v) { vp_assert(id > last && x.e[id] && eq<T>(v, *x.e[id]), "present elements in order"); last = id; ++present; });
  vp_assert(present == a.PresentCount(), "all present elements");
  last = -1; present = 0;
  a.ForEachPresent([&](int64_t id, auto v) { vp_assert(id > last && x.e[id] && eq<T>(v, *x.e[id]), "present elements in order"); last = id; ++present; },
                   [&](int64_t id, int64_t c, auto v) { vp_assert(id > last && id + c <= n, "in order"); for (int64_t i = id; i < id + c; ++i) vp_assert(x.e[i] && eq<T>(v, *x.e[i]), "each element of the run"); last = id + c - 1; present += c; });
  vp_assert(present == a.PresentCount(), "all present elements");
  std::vector<int64_t> sub; int64_t so = int64_t(vp_native_random(9)) - 4;
  int mode = vp_native_random(5); for (int64_t i = 0; i < n; ++i) if (vp_native_random(5) < uint64_t(mode)) sub.push_back(i + so);
  size_t k = 0;
  ArrayForEachInSubset<T, int64_t>(a, absl::MakeConstSpan(sub), so, [&](int64_t id, bool p, auto v) { vp_assert(k < sub.size() && id == sub[k] - so && p == x.e[id].has_value() && (!p || eq<T>(v, *x.e[id])), "elements of the subset, in order"); ++k; });
  vp_assert(k == sub.size(), "all of the subset");
  auto it = a.begin(); for (int64_t i = 0; i < n; ++i, ++it) vp_assert(eqo<T>(OptionalValue<arolla::view_type_t<T>>(*it), x.e[i]), "iterator"); vp_assert(it == a.end(), "end");
  // conversions
  DenseArray<T> d = ToDenseArray(a);
  vp_assert(d.size() == n && d.bitmap_bit_offset == 0 && d.CheckBitmapMatchesValues(), "dense array"); for (int64_t i = 0; i < n; ++i) vp_assert(eqo<T>(d[i], x.e[i]), "dense array element");
  auto b = ToBuffer(a);
  vp_assert(b.ok() == (present == n), "a buffer exactly when all are present");
  if (b.ok()) { vp_assert(b->size() == n, "buffer"); for (int64_t i = 0; i < n; ++i) vp_assert(eq<T>((*b)[i], *x.e[i]), "buffer element"); }
  std::vector<std::optional<Unit>> m(n); for (int64_t i = 0; i < n; ++i) if (x.e[i]) m[i] = Unit{};
  Array<Unit> mask = ToArrayMask(a);
  is<Unit>(mask, m);
  int64_t maxc = vp_native_random(n + 3), cnt = std::min(maxc, present);
  auto first = ArrayFirstPresentIds(mask, maxc), lst = ArrayLastPresentIds(mask, maxc);
  vp_assert(int64_t(first.size()) == cnt && int64_t(lst.size()) == cnt, "number of present ids");
  size_t p = 0; for (int64_t i = 0; i < n && p < first.size(); ++i) if (m[i]) vp_assert(first[p++] == i, "first present ids");
  p = 0; for (int64_t i = n; i-- && p < lst.size();) if (m[i]) vp_assert(lst[p++] == i, "last present ids");
  // equivalence
  Array<T> c = a; switch (vp_native_random(4)) { case 0: c = a.ToDenseForm(); break; case 1: c = a.ToSparseForm(OptionalValue<T>(other)); break; case 2: c = Array<T>(CreateDenseArray<T>(x.e.begin(), x.e.end())); break; }
  { vp_assert(ArraysAreEquivalent(a, c), "two forms of the same array are equivalent");
    RArr<T> y(n); vp_assert(ArraysAreEquivalent(a, y.a) == (x.e == y.e), "equivalent exactly when the elements are equal"); }
  vp_assert(!ArraysAreEquivalent(a, Array<T>(n + 1, std::nullopt)), "sizes differ");
  // construction
  std::vector<int64_t> ids; std::vector<T> vals;
  SparseArrayBuilder<T> sb(n, present);
  bool late = vp_native_random(2); std::vector<std::pair<int64_t, T>> todo;
  for (int64_t i = 0; i < n; ++i) if (x.e[i]) { ids.push_back(i); vals.push_back(*x.e[i]); if (late) { todo.push_back({sb.NextOffset(), *x.e[i]}); sb.AddId(i); } else sb.Add(i, *x.e[i]); }
  for (auto& [o, v] : todo) sb.SetByOffset(o, v);
  is<T>(std::move(sb).Build(), x.e);
  if constexpr (!std::is_same_v<T, Bytes>) is<T>(CreateArray<T>(n, ids, absl::MakeConstSpan(vals)), x.e);
}
VP_BOUNDED(forms_int) { forms<int64_t>(); }
VP_BOUNDED(forms_float) { forms<float>(); }
VP_BOUNDED(forms_bytes) { forms<Bytes>(); }
template <bool dense> static void iterate() {
  int64_t n = vp_native_random(2) ? vp_native_random(60) : vp_native_random(9);
  RArr<int> x(n); RArr<float> y(n); RArr<Bytes> z(n);
  if (vp_native_random(3) == 0) { RArr<int> q(n); Array<int> m = q.a; if (m.IsSparseForm()) { y.a = y.a.WithIds(m.id_filter(), 3.f); x.a = x.a.WithIds(m.id_filter(), vp_native_random(2) ? OptionalValue<int>(2) : OptionalValue<int>()); for (int64_t i = 0; i < n; ++i) { auto a = x.a[i]; auto b = y.a[i]; x.e[i] = a.present ? std::optional<int>(a.value) : std::nullopt; y.e[i] = b.present ? std::optional<float>(b.value) : std::nullopt; } } }
  int64_t next = 0;
  auto upto = [&](int64_t id) { for (; next < id; ++next) vp_assert(!x.e[next] || !z.e[next], "rows are skipped only when a required argument is missing"); };
  auto fn = [&](int64_t id, int a, OptionalValue<float> b, absl::string_view c) { upto(id); vp_assert(id == next && x.e[id] && a == *x.e[id] && eqo<float>(b, y.e[id]) && z.e[id] && eq<Bytes>(c, *z.e[id]), "the row's elements"); ++next; };
  if (dense) ArraysIterateDense(fn, x.a, y.a, z.a); else ArraysIterate(fn, x.a, y.a, z.a);
  upto(n);
  next = 0;
  auto fn2 = [&](int64_t id, OptionalValue<int> a, OptionalValue<float> b) { vp_assert(id == next && eqo<int>(a, x.e[id]) && eqo<float>(b, y.e[id]), "the row's elements"); ++next; };
  if (dense) ArraysIterateDense(fn2, x.a, y.a); else ArraysIterate(fn2, x.a, y.a);
  vp_assert(next == n, "all rows");
  next = 0;
  auto fn3 = [&](int64_t id, int a, float b) { for (; next < id; ++next) vp_assert(!x.e[next] || !y.e[next], "skipped"); vp_assert(id == next && x.e[id] && y.e[id] && a == *x.e[id] && b == *y.e[id], "the row's elements"); ++next; };
  if (dense) ArraysIterateDense(fn3, x.a, y.a); else ArraysIterate(fn3, x.a, y.a);
  for (; next < n; ++next) vp_assert(!x.e[next] || !y.e[next], "skipped");
  // ranges
  int64_t from = vp_native_random(n + 1), to = from + vp_native_random(n - from + 1), at = from, total = 0;
  array_ops_internal::ArrayOpsUtil<dense, meta::type_list<int, OptionalValue<float>>> u(n, x.a, y.a);
  u.Iterate(from, to,
            [&](int64_t id, int a, OptionalValue<float> b) { vp_assert(id == at && x.e[id] && a == *x.e[id] && eqo<float>(b, y.e[id]), "the row"); ++at; },
            [&](int64_t id, int64_t c) { vp_assert(id == at && c > 0 && id + c <= to, "in order"); for (; c--; ++at) vp_assert(!x.e[at], "missing rows"); },
            [&](int64_t id, int64_t c, int a, OptionalValue<float> b) { vp_assert(id == at && c > 0 && id + c <= to, "in order"); for (; c--; ++at) vp_assert(x.e[at] && a == *x.e[at] && eqo<float>(b, y.e[at]), "repeated rows"); });
  vp_assert(at == to, "the whole range");
  for (int64_t i = 0; i < n; ++i) total += x.e[i].has_value();
  vp_assert(u.size() == n && u.PresentCountUpperEstimate() >= total, "upper estimate of the rows");
}
VP_BOUNDED(rows) { iterate<false>(); }
VP_BOUNDED(rows_dense) { iterate<true>(); }
#endif
