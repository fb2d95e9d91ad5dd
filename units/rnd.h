// Small random dense and sparse arrays (native runs only).
#ifndef VP_RND_H_
#define VP_RND_H_
#include <optional>
#include <string>
#include <vector>
#include "vp.h"
#include "arolla/array/array.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/util/bytes.h"
#include "arolla/util/unit.h"
using arolla::Array, arolla::Bytes, arolla::CreateDenseArray, arolla::CreateFullDenseArray, arolla::DenseArray, arolla::IdFilter, arolla::OptionalValue, arolla::Unit;
template <class T> struct Rnd { static T value() { return T(vp_native_random(7)) - 2; } };
template <> struct Rnd<Bytes> { static Bytes value() { return Bytes(std::string(vp_native_random(4), 'a' + vp_native_random(3))); } };
template <> struct Rnd<Unit> { static Unit value() { return Unit{}; } };
template <class T> struct Arr {
  std::vector<std::optional<T>> e; DenseArray<T> d;
  Arr(int64_t n, bool zero_offset) {
    int64_t skip = zero_offset ? 0 : vp_native_random(40), tail = vp_native_random(3) ? 0 : vp_native_random(40);
    int mode = vp_native_random(4);  // 0: full, 1: all missing, else random
    bool few = vp_native_random(4) == 0;
    std::vector<std::optional<T>> all(skip + n + tail);
    for (auto& x : all) if (mode == 0 || (mode > 1 && (few ? vp_native_random(40) == 0 : vp_native_random(3)))) x = Rnd<T>::value();
    DenseArray<T> whole = CreateDenseArray<T>(all.begin(), all.end());
    if constexpr (std::is_arithmetic_v<T>) {
      if (mode == 0 && vp_native_random(2)) { std::vector<T> v; for (auto& x : all) v.push_back(*x); whole = CreateFullDenseArray<T>(v.begin(), v.end()); }
      else if (vp_native_random(2)) { std::vector<OptionalValue<T>> v(all.begin(), all.end()); whole = CreateDenseArray<T>(absl::MakeConstSpan(v)); }
    }
    d = whole.Slice(skip, n);
    if (zero_offset && d.bitmap.size() && !vp_native_random(2)) d = std::move(d).ForceNoBitmapBitOffset();
    e.assign(all.begin() + skip, all.begin() + skip + n);
  }
};
static int64_t rnd_n() { return vp_native_random(2) ? vp_native_random(140) : vp_native_random(36); }
// A random array in any of the forms, with its elements.
template <class T> struct RArr {
  std::vector<std::optional<T>> e; Array<T> a;
  explicit RArr(int64_t n, int form = vp_native_random(4)) {
    if (vp_native_random(4) == 0) {
      int64_t skip = vp_native_random(9), tail = vp_native_random(9);
      RArr w(skip + n + tail, 10);
      a = w.a.Slice(skip, n);
      e.assign(w.e.begin() + skip, w.e.begin() + skip + n);
      return;
    }
    std::optional<T> other; if (vp_native_random(2)) other = Rnd<T>::value();
    if (form == 0) { e.assign(n, other); a = Array<T>(n, OptionalValue<T>(other)); return; }
    if (form == 1 || n < 2) { Arr<T> d(n, false); e = d.e; a = Array<T>(d.d); return; }
    int64_t k = 1 + vp_native_random(vp_native_random(2) ? n - 1 : (n + 3) / 4), off = vp_native_random(2) ? int64_t(vp_native_random(50)) - 20 : 0;
    if (k >= n) k = n - 1;
    std::vector<int64_t> ids; e.assign(n, other);
    Arr<T> d(k, false);
    for (int64_t i = 0, need = k; need; ++i) if (int64_t(vp_native_random(n - i)) < need) { e[i] = d.e[ids.size()]; ids.push_back(i + off); --need; }
    arolla::Buffer<int64_t>::Builder b(k); for (int64_t i = 0; i < k; ++i) b.Set(i, ids[i]);
    a = Array<T>(n, IdFilter(n, std::move(b).Build(), off), d.d, OptionalValue<T>(other));
  }
};
template <class T, class V> static bool eq(const V& v, const T& x) { if constexpr (std::is_same_v<T, Bytes>) return absl::string_view(v) == absl::string_view(x); else return v == x; }
template <class T, class V> static bool eqo(const OptionalValue<V>& v, const std::optional<T>& x) { return v.present == x.has_value() && (!x || eq<T>(v.value, *x)); }
// r is well-formed and has the elements e
template <class T> static void is(const Array<T>& r, const std::vector<std::optional<T>>& e) {
  vp_assert(r.size() == int64_t(e.size()), "size");
  auto t = r.id_filter().type();
  vp_assert(t != IdFilter::kEmpty || r.dense_data().empty(), "no data in constant form");
  vp_assert(t != IdFilter::kFull || r.dense_data().size() == r.size(), "all data in dense form");
  vp_assert(t != IdFilter::kPartial || (r.id_filter().ids().size() == r.dense_data().size() && r.dense_data().size() < r.size() && r.dense_data().size() > 0), "one entry per listed id in sparse form");
  if (t == IdFilter::kPartial) { int64_t last = -1; for (int64_t i : r.id_filter().ids()) { vp_assert(i - r.id_filter().ids_offset() > last && i - r.id_filter().ids_offset() < r.size(), "listed ids ascend within range"); last = i - r.id_filter().ids_offset(); } }
  vp_assert(r.dense_data().CheckBitmapMatchesValues(), "presence bits for all entries");
  int64_t present = 0;
  for (size_t i = 0; i < e.size(); ++i) { vp_assert(eqo<T>(r[i], e[i]), "element"); present += e[i].has_value(); }
  vp_assert(r.PresentCount() == present, "present count");
}
#endif
