// Bounded contracts: fingerprints of values. Copies of a value have its
// fingerprint, values that can be told apart have different ones (up to
// collisions of the 128-bit hash; vc/vp_native.cc has a mixing stand-in for
// CityHash).
#ifndef VP_SYMBOLIC
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "vp.h"
#include "rnd.h"
#include "arolla/array/array.h"
#include "arolla/array/edge.h"
#include "arolla/array/id_filter.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/memory/strings_buffer.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/text.h"
using namespace arolla;
template <class T> static Fingerprint fp(const T& x) { return FingerprintHasher("salt").Combine(x).Finish(); }
static uint64_t R(uint64_t n) { return vp_native_random(n); }
static std::string rs() { std::string s(R(3), 'a'); for (char& c : s) c = 'a' + R(2); return s; }
template <class T> static void pair(const T& a, const T& b, bool same, const T& copy_of_a) {
  vp_assert(fp(a) == fp(copy_of_a), "a copy has the same fingerprint");
  if (!same) vp_assert(fp(a) != fp(b), "different values have different fingerprints");
}
VP_BOUNDED(scalars) {
  int i = R(4), j = R(4); pair(i, j, i == j, i);
  float x = R(3), y = R(3); pair(x, y, x == y, x);
  int64_t l = vp_any<int64_t>("l"), m = vp_any<int64_t>("m"); pair(l, m, l == m, l);
  std::string s = rs(), t = rs(); pair(s, t, s == t, std::string(s));
  pair(Bytes(s), Bytes(t), s == t, Bytes(std::string(s))); pair(Text(s), Text(t), s == t, Text(std::string(s)));
  OptionalValue<int> o{R(2) != 0, i}, p{R(2) != 0, j}; pair(o, p, o == p, OptionalValue<int>(o));
  OptionalValue<Bytes> ob{R(2) != 0, Bytes(s)}, pb{R(2) != 0, Bytes(t)}; pair(ob, pb, ob == pb, OptionalValue<Bytes>(ob));
  OptionalUnit u{R(2) != 0}, v{R(2) != 0}; pair(u, v, u == v, OptionalUnit(u));
  Fingerprint f = fp(i), g = fp(j); pair(f, g, f == g, f);
  // sequences of values: lengths separate them
  std::string q = rs(), r = rs();
  bool same = s == q && t == r;
  vp_assert(same == (FingerprintHasher("x").Combine(s, t).Finish() == FingerprintHasher("x").Combine(q, r).Finish()), "concatenations of strings are told apart");
  vp_assert((s == t) == (FingerprintHasher(s).Finish() == FingerprintHasher(t).Finish()), "salts are told apart");
  std::vector<int> a(R(4)), b(R(4)); for (int& z : a) z = R(2); for (int& z : b) z = R(2);
  vp_assert((a == b) == (FingerprintHasher("x").CombineSpan(a).Finish() == FingerprintHasher("x").CombineSpan(b).Finish()), "spans are told apart");
  vp_assert((s == t) == (FingerprintOfString(s) == FingerprintOfString(t)) && (s == t) == (FingerprintOfBytes(s.data(), s.size()) == FingerprintOfBytes(t.data(), t.size())), "byte strings are told apart");
  // long data, across the hasher's buffer
  std::vector<std::string> parts, other; FingerprintHasher h("x"), h2("x"), h3("x");
  int n = R(6) + 1; for (int k = 0; k < n; ++k) parts.push_back(std::string(R(2) ? R(400) : R(20), 'a' + R(3)));
  other = parts; int c = R(n); if (other[c].empty()) other[c] = "z"; else { size_t at = R(other[c].size()); other[c][at]++; }
  for (auto& e : parts) { h.Combine(e); h2.Combine(e); } for (auto& e : other) h3.Combine(e);
  Fingerprint fh = std::move(h).Finish();
  vp_assert(fh == std::move(h2).Finish() && fh != std::move(h3).Finish(), "one changed byte changes the fingerprint");
}
// Other ways to hold the same elements in memory.
template <class T> static void arrays() {
  int64_t n = R(5), m = R(5); if (R(2)) m = n;
  Arr<T> a(n, false), b(m, false);
  pair(a.d, b.d, a.e == b.e, a.d.MakeOwned());
  pair(a.d, b.d, a.e == b.e, CreateDenseArray<T>(a.e.begin(), a.e.end()));
  RArr<T> x(n), y(m);
  pair(x.a, y.a, x.e == y.e, x.a.MakeOwned());
  if (n && x.a.dense_data().size() && R(2)) { // a single change
    RArr<T> z = x; int64_t at = R(z.e.size());
    std::vector<std::optional<T>> e(z.e); if (e[at]) e[at].reset(); else e[at] = Rnd<T>::value();
    vp_assert(fp(CreateDenseArray<T>(x.e.begin(), x.e.end())) != fp(CreateDenseArray<T>(e.begin(), e.end())), "one changed element");
  }
}
VP_BOUNDED(arrays_int) { arrays<int>(); }
VP_BOUNDED(arrays_bool) { arrays<bool>(); }
VP_BOUNDED(arrays_bytes) { arrays<Bytes>(); }
VP_BOUNDED(arrays_unit) { arrays<Unit>(); }
VP_BOUNDED(id_filters) {
  int64_t n = 2 + R(5);
  RArr<int> x(n, 2), y(n, R(3));
  // the same entries seen through another offset
  if (x.a.IsSparseForm() && R(2)) {
    int64_t off = x.a.id_filter().ids_offset(), last = x.a.id_filter().ids().back() - off, d = int64_t(R(3)) - 1;
    if (x.a.id_filter().ids().front() - off - d >= 0 && last - d < n) { IdFilter f(n, x.a.id_filter().ids(), off + d); y.a = Array<int>(n, f, x.a.dense_data(), x.a.missing_id_value()); for (int64_t i = 0; i < n; ++i) { auto v = y.a[i]; y.e[i] = v.present ? std::optional<int>(v.value) : std::nullopt; } }
  }
  pair(x.a, y.a, x.e == y.e, x.a.MakeOwned());
  bool same = true; for (int64_t i = 0; i < n; ++i) same &= x.a.id_filter().IdToOffset(i) == y.a.id_filter().IdToOffset(i);
  pair(x.a.id_filter(), y.a.id_filter(), same, IdFilter(x.a.id_filter()));
}
VP_BOUNDED(string_buffers) {
  std::vector<std::string> a(R(4)), b(R(4)); for (auto& s : a) s = rs(); for (auto& s : b) s = rs();
  auto make = [](const std::vector<std::string>& v) { StringsBuffer::Builder bl(v.size()); for (size_t i = 0; i < v.size(); ++i) bl.Set(i, v[i]); return std::move(bl).Build(); };
  auto x = make(a), y = make(b);
  size_t f = R(a.size() + 1), c = R(a.size() - f + 1), f2 = R(b.size() + 1), c2 = R(b.size() - f2 + 1);
  auto xs = x.Slice(f, c), ys = y.Slice(f2, c2);
  auto vec = [](const StringsBuffer& s) { std::vector<std::string> r; for (size_t i = 0; i < s.size(); ++i) r.emplace_back(s[i]); return r; };
  pair(xs, ys, vec(xs) == vec(ys), StringsBuffer(xs));
  // the same bytes, offsets shifted against them
  if (!x.empty() && x.characters().size()) {
    int64_t lo = INT64_MAX, hi = 0; for (auto& o : x.offsets()) { lo = std::min(lo, o.start); hi = std::max(hi, o.end); }
    int64_t base = x.base_offset(), d = int64_t(R(3)) - 1;
    if (lo - base - d >= 0 && hi - base - d <= int64_t(x.characters().size())) { StringsBuffer z(x.offsets(), x.characters(), base + d); pair(x, z, vec(x) == vec(z), StringsBuffer(x)); }
    StringsBuffer shorter(x.offsets(), x.characters(), base);
    pair(x, shorter, true, shorter);
  }
  std::vector<int> p(R(4)), q(R(4)); for (int& z : p) z = R(2); for (int& z : q) z = R(2);
  pair(CreateBuffer<int>(p), CreateBuffer<int>(q), p == q, CreateBuffer<int>(p));
}
VP_BOUNDED(edges) {
  auto mk = [](std::string& key) {
    std::vector<OptionalValue<int64_t>> v(R(4)); int64_t parents = 1 + R(3); int kind = R(3);
    if (kind == 0) { key = "m" + std::to_string(parents); for (auto& x : v) { if (R(4)) x = int64_t(R(parents)); key += x.present ? std::to_string(x.value) + "," : "-,"; } return *DenseArrayEdge::FromMapping(CreateDenseArray<int64_t>(absl::MakeConstSpan(v)), parents); }
    std::vector<OptionalValue<int64_t>> s{int64_t{0}}; key = "s"; for (int64_t i = 0; i < parents; ++i) { s.push_back(s.back().value + int64_t(R(3))); key += std::to_string(s.back().value) + ","; }
    return *DenseArrayEdge::FromSplitPoints(CreateDenseArray<int64_t>(absl::MakeConstSpan(s)));
  };
  std::string ka, kb; auto a = mk(ka), b = mk(kb);
  pair(a, b, ka == kb, DenseArrayEdge(a));
  if (ka == kb) vp_assert(fp(a) == fp(b), "edges made the same way");
  auto arr = [](const DenseArrayEdge& e) { Array<int64_t> v(e.edge_values()); return e.edge_type() == DenseArrayEdge::MAPPING ? *ArrayEdge::FromMapping(v, e.parent_size()) : *ArrayEdge::FromSplitPoints(v); };
  pair(arr(a), arr(b), ka == kb, arr(a));
  int64_t n = R(4), m = R(4);
  pair(DenseArrayGroupScalarEdge(n), DenseArrayGroupScalarEdge(m), n == m, DenseArrayGroupScalarEdge(n));
  pair(ArrayGroupScalarEdge(n), ArrayGroupScalarEdge(m), n == m, ArrayGroupScalarEdge(n));
  pair(DenseArrayShape{n}, DenseArrayShape{m}, n == m, DenseArrayShape{n});
  pair(ArrayShape{n}, ArrayShape{m}, n == m, ArrayShape{n});
}
#endif
