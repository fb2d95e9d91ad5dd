// Contracts for arolla/dense_array/ops/{dense_ops.h,universal_dense_op.h,util.h}
#ifdef VP_SYMBOLIC
#define NDEBUG
#define VP_NODCHECK   // (DCHECKs are still executed in the native runs)
#else
#include <optional>
#include <string>
#include <vector>
#endif
#include "vp.h"
#include "models.h"
#include "dense.h"
#include "arolla/dense_array/ops/dense_ops.h"
#include "arolla/dense_array/ops/util.h"
#ifndef VP_SYMBOLIC
#include "arolla/util/bytes.h"
#include "rnd.h"
#endif
using namespace arolla;
struct Twice { int64_t operator()(int32_t a) const { return 2 * int64_t{a}; } };
struct Mix { int64_t operator()(int32_t a, int32_t b) const { return int64_t{a} - (int64_t{b} << 20); } };
struct Mix3 { int64_t operator()(int32_t a, int32_t b, int32_t c) const { return int64_t{a} + (int64_t{b} << 10) - (int64_t{c} << 20); } };
using F = DenseOpFlags;
#ifdef VP_SYMBOLIC
namespace arolla { absl::Status SizeMismatchError(std::initializer_list<int64_t>) { return absl::InvalidArgumentError(""); } }
#endif
// Hands out the given memory, in order (native: fresh memory).
struct Memory final : RawBufferFactory {
  void* p[2] = {nullptr, nullptr}; int k = 0; VpFactory heap;
  std::tuple<RawBufferPtr, void*> CreateRawBuffer(size_t n) override { if (kVpNative) return heap.CreateRawBuffer(n); return {nullptr, p[k++]}; }
  std::tuple<RawBufferPtr, void*> ReallocRawBuffer(RawBufferPtr&& o, void* d, size_t a, size_t b) override { return heap.ReallocRawBuffer(std::move(o), d, a, b); }
};
static bool bitc(bitmap_word w, int i) { return (w >> i) & 1; }
static bool has(const DenseArray<int64_t>& r, uint64_t i) { return r.bitmap.empty() || ((r.bitmap.begin()[(i + r.bitmap_bit_offset) >> 5] >> ((i + r.bitmap_bit_offset) & 31)) & 1); }
static bool well_formed(const DenseArray<int64_t>& r) { return r.bitmap.empty() || uint64_t(r.bitmap.size()) >= (uint64_t(r.size()) + r.bitmap_bit_offset + 31) / 32; }

VP_CONTRACT(unary) {
  Opt<int32_t> a("n", "a", "w", "off", 70);
  uint64_t g = vp_size("g", 70); vp_assume(g < a.n);
  Memory f; int64_t* m = nullptr;
  if (!kVpNative) f.p[0] = m = vp_array<int64_t>("mem", a.n);
  VP_INV1(t, !(m && g < t && t <= a.n) || m[g] == 2 * int64_t{a.p[g]});
  auto op = CreateDenseOp<F::kRunOnMissing>(Twice(), &f);
  DenseArray<int64_t> r = op(a.get());
  vp_assert(uint64_t(r.size()) == a.n && well_formed(r), "one result per element");
  vp_assert(has(r, g) == a.has(g), "present exactly where the argument is");
  vp_assert(!a.has(g) || r.values.begin()[g] == 2 * int64_t{a.p[g]}, "the scalar operation on that element");
}
template <int flags> static void binary(bool ea, bool eb) {
  vp_opt("plain");
  Opt<int32_t> a("n", "a", "wa", "offa", 70);
  Opt<int32_t> b(a.n, "b", "wb", "offb");
  if (flags & F::kNoBitmapOffset) { if (kVpNative) a.off = b.off = 0, a.nw = b.nw = (a.n + 31) / 32; vp_assume(a.off == 0 && b.off == 0); }
  uint64_t g = vp_size("g", 70); vp_assume(g < a.n);
  DenseArray<int32_t> x = ea ? DenseArray<int32_t>{vp_buffer(a.p, a.n)} : a.get(), y = eb ? DenseArray<int32_t>{vp_buffer(b.p, b.n)} : b.get();
  Memory f; int64_t* m = nullptr; bitmap_word* rb = nullptr;
  int lo = a.off < b.off ? a.off : b.off;
  uint64_t w = (g + lo) >> 5; int c = (g + lo) & 31;
  bool want = (ea | a.has(g)) & (eb | b.has(g));
  int64_t v = Mix()(a.p[g], b.p[g]);
  if (!kVpNative) { f.p[0] = m = vp_array<int64_t>("mem", a.n); f.p[1] = rb = vp_array<bitmap_word>("membits", a.nw < b.nw ? a.nw : b.nw); }
  VP_INV1(t, !(m && g < t && t <= a.n) || m[g] == v);
  VP_INV1(t, !(rb && w < t) || bitc(rb[w], c) == want);
  auto op = CreateDenseOp<F::kRunOnMissing | F::kNoSizeValidation | flags>(Mix(), &f);
  auto r = op(x, y);
  vp_assert(uint64_t(r.size()) == a.n && well_formed(r), "one result per element");
  vp_assert(has(r, g) == want, "present exactly where both arguments are");
  vp_assert(!want || r.values.begin()[g] == v, "the scalar operation on those elements");
}
VP_CONTRACT(binary_bitmaps_at_offsets) { binary<0>(false, false); }
VP_CONTRACT(binary_one_full) { binary<0>(false, true); }
VP_CONTRACT(binary_other_full) { binary<0>(true, false); }
VP_CONTRACT(binary_bitmaps_without_offset) { binary<F::kNoBitmapOffset>(false, false); }
VP_CONTRACT(binary_sizes) {
  Full<int32_t> a("n", "a"), b("m", "b");
  Memory f;
  if (!kVpNative) f.p[0] = vp_array<int64_t>("mem", a.n);
  auto r = CreateDenseOp<F::kRunOnMissing>(Mix(), &f)(a.get(), b.get());
  vp_assert(r.ok() == (a.n == b.n), "an error exactly when the sizes differ");
}
VP_CONTRACT(simple_ternary) {
  vp_opt("plain");
  Opt<int32_t> a("n", "a", "wa", "offa", 70), b(a.n, "b", "wb", "offb"), d(a.n, "d", "wd", "offd");
  if (kVpNative) for (auto* o : {&a, &b, &d}) o->off = 0, o->nw = (a.n + 31) / 32;
  vp_assume(a.off == 0 && b.off == 0 && d.off == 0);
  bool eb = vp_any<bool>("eb");
  uint64_t g = vp_size("g", 70); vp_assume(g < a.n);
  Memory f; int64_t* m = nullptr; bitmap_word* rb = nullptr;
  bool want = a.has(g) & (eb | b.has(g)) & d.has(g), two = a.has(g) & b.has(g);
  int64_t v = Mix3()(a.p[g], b.p[g], d.p[g]);
  uint64_t w = g >> 5; int c = g & 31;
  if (!kVpNative) { f.p[0] = m = vp_array<int64_t>("mem", a.n); f.p[1] = rb = vp_array<bitmap_word>("membits", a.nw); }
  VP_INV1(t, !(m && g < t && t <= a.n) || m[g] == v);
  VP_INV1(t, !(rb && w < t) || bitc(rb[w], c) == want);
  VP_INV1(t, !(rb && w >= t) || bitc(rb[w], c) == (a.has(g) & (eb | b.has(g))));
  VP_INV1(t, !(rb && w < t) || bitc(rb[w], c) == two);
  VP_INV1(t, !(rb && w >= t) || bitc(rb[w], c) == a.has(g));
  auto op = CreateDenseOp<F::kRunOnMissing | F::kNoSizeValidation | F::kNoBitmapOffset>(Mix3(), &f);
  DenseArray<int64_t> r = op(a.get(), eb ? DenseArray<int32_t>{vp_buffer(b.p, b.n)} : b.get(), d.get());
  vp_assert(uint64_t(r.size()) == a.n && well_formed(r), "one result per element");
  vp_assert(has(r, g) == want, "present exactly where all arguments are");
  vp_assert(!want || r.values.begin()[g] == v, "the scalar operation on those elements");
}
#ifndef VP_SYMBOLIC
// ---- bounded native contracts: all kinds of operations over small random arrays ----
template <class R, class E> static void same(const DenseArray<R>& r, int64_t n, E expected) {
  vp_assert(r.size() == n && r.CheckBitmapMatchesValues(), "one result per element");
  int64_t present = 0;
  for (int64_t i = 0; i < n; ++i) {
    std::optional<R> x = expected(i);
    vp_assert(r[i].present == x.has_value(), "present exactly when the required arguments are and the function gives a value");
    if (x) { ++present; if constexpr (std::is_same_v<R, Bytes>) vp_assert(absl::string_view(r[i].value) == absl::string_view(*x), "value of the scalar operation"); else vp_assert(r[i].value == *x, "value of the scalar operation"); }
  }
  vp_assert(r.PresentCount() == present && r.IsFull() == (present == n) && r.IsAllMissing() == (present == 0), "present count");
}
template <class R, int flags, class T> static void un(auto fn, auto scalar) {
  int64_t n = rnd_n(); Arr<T> a(n, flags & F::kNoBitmapOffset);
  same<R>(CreateDenseOp<flags, decltype(fn), R>(fn)(a.d), n, [&](int64_t i) { return scalar(a.e[i]); });
}
template <class R, int flags, class T, class U> static void bin(auto fn, auto scalar) {
  int64_t n = rnd_n(); Arr<T> a(n, flags & F::kNoBitmapOffset); Arr<U> b(n, flags & F::kNoBitmapOffset);
  auto r = CreateDenseOp<flags, decltype(fn), R>(fn)(a.d, b.d);
  auto e = [&](int64_t i) { return scalar(a.e[i], b.e[i]); };
  if constexpr (flags & F::kNoSizeValidation) same<R>(r, n, e); else { vp_assert(r.ok(), "equal sizes"); same<R>(*r, n, e); }
}
template <class R, int flags, class T, class U, class V> static void ter(auto fn, auto scalar) {
  int64_t n = rnd_n(); Arr<T> a(n, flags & F::kNoBitmapOffset); Arr<U> b(n, flags & F::kNoBitmapOffset); Arr<V> c(n, flags & F::kNoBitmapOffset);
  auto r = CreateDenseOp<flags, decltype(fn), R>(fn)(a.d, b.d, c.d);
  auto e = [&](int64_t i) { return scalar(a.e[i], b.e[i], c.e[i]); };
  if constexpr (flags & F::kNoSizeValidation) same<R>(r, n, e); else { vp_assert(r.ok(), "equal sizes"); same<R>(*r, n, e); }
}
template <class T> using O = std::optional<T>;
// (the functions run on missing elements' unspecified values)
#pragma clang attribute push(__attribute__((no_sanitize("signed-integer-overflow"))), apply_to = function)
template <int flags> static void numeric() {
  un<int, flags, int>([](int a) { return a * 3; }, [](O<int> a) { return a ? O<int>(*a * 3) : O<int>(); });
  un<int, flags, int>([](int a) { return OptionalValue<int>{a > 0, a + 1}; }, [](O<int> a) { return a && *a > 0 ? O<int>(*a + 1) : O<int>(); });
  un<int, flags, int>([](OptionalValue<int> a) { return a.present ? a.value : 77; }, [](O<int> a) { return O<int>(a.value_or(77)); });
  un<int, flags, int>([](OptionalValue<int> a) { return OptionalValue<int>{!a.present, 5}; }, [](O<int> a) { return a ? O<int>() : O<int>(5); });
  bin<int64_t, flags, int, int>([](int a, int b) { return int64_t{a} - 10 * b; }, [](O<int> a, O<int> b) { return a && b ? O<int64_t>(*a - 10 * *b) : O<int64_t>(); });
  bin<int, flags, int, float>([](int a, OptionalValue<float> b) { return b.present ? a + int(b.value) : a; }, [](O<int> a, O<float> b) { return a ? O<int>(b ? *a + int(*b) : *a) : O<int>(); });
  bin<int, flags, float, int>([](OptionalValue<float> a, int b) { return OptionalValue<int>{!a.present || b != 0, b}; }, [](O<float> a, O<int> b) { return b && (!a || *b != 0) ? O<int>(*b) : O<int>(); });
  bin<int, flags, int, int>([](OptionalValue<int> a, OptionalValue<int> b) { return a.present ? a : b; }, [](O<int> a, O<int> b) { return a ? a : b; });
  ter<int, flags, int, int, int>([](int a, int b, int c) { return a + 10 * b + 100 * c; }, [](O<int> a, O<int> b, O<int> c) { return a && b && c ? O<int>(*a + 10 * *b + 100 * *c) : O<int>(); });
  ter<int, flags, int, int, int>([](int a, OptionalValue<int> b, int c) { return OptionalValue<int>{a != c, b.present ? b.value : c}; }, [](O<int> a, O<int> b, O<int> c) { return a && c && *a != *c ? O<int>(b ? *b : *c) : O<int>(); });
  ter<int, flags, Unit, int, int>([](Unit, int b, OptionalValue<int> c) { return c.present ? b - c.value : b; }, [](O<Unit> a, O<int> b, O<int> c) { return a && b ? O<int>(c ? *b - *c : *b) : O<int>(); });
  un<Unit, flags, int>([](int a) { return OptionalUnit(a > 0); }, [](O<int> a) { return a && *a > 0 ? O<Unit>(Unit{}) : O<Unit>(); });
}
VP_BOUNDED(every_kind) { numeric<0>(); }
VP_BOUNDED(every_kind_run_on_missing) { numeric<F::kRunOnMissing>(); }
VP_BOUNDED(every_kind_without_offset) { numeric<F::kNoBitmapOffset | F::kNoSizeValidation>(); numeric<F::kNoBitmapOffset | F::kRunOnMissing>(); numeric<F::kRunOnMissing | F::kNoSizeValidation | F::kNoBitmapOffset>(); }
VP_BOUNDED(strings) {
  un<Bytes, 0, Bytes>([](absl::string_view a) { return a.substr(0, 1); }, [](O<Bytes> a) { return a ? O<Bytes>(Bytes(std::string(*a).substr(0, 1))) : O<Bytes>(); });
  un<int, 0, Bytes>([](absl::string_view a) { return int(a.size()); }, [](O<Bytes> a) { return a ? O<int>(int(std::string(*a).size())) : O<int>(); });
  bin<Bytes, 0, Bytes, int>([](absl::string_view a, OptionalValue<int> b) { return OptionalValue<std::string>(std::string(a) + (b.present ? std::to_string(b.value) : "?")); }, [](O<Bytes> a, O<int> b) { return a ? O<Bytes>(Bytes(std::string(*a) + (b ? std::to_string(*b) : "?"))) : O<Bytes>(); });
}
VP_BOUNDED(errors) {
  int64_t n = rnd_n(), m = vp_native_random(2) ? n : rnd_n(), bad = vp_native_random(12);
  Arr<int> a(n, false), b(m, false);
  auto fn = [&](int x, int y) -> absl::StatusOr<int> { if (x + 10 * y == bad) return absl::InvalidArgumentError("no"); return x - y; };
  auto r = CreateDenseOp(fn)(a.d, b.d);
  bool fail = n != m;
  for (int64_t i = 0; !fail && i < n; ++i) fail = a.e[i] && b.e[i] && *a.e[i] + 10 * *b.e[i] == bad;
  vp_assert(r.ok() == !fail, "an error exactly when the sizes differ or the function fails on present elements");
  if (r.ok()) same<int>(*r, n, [&](int64_t i) { return a.e[i] && b.e[i] ? O<int>(*a.e[i] - *b.e[i]) : O<int>(); });
  int64_t k = vp_native_random(2) ? n : rnd_n();
  Arr<int> c(k, false);
  auto t = CreateDenseOp<F::kRunOnMissing>([](int x, int y, int z) { return x + y + z; })(a.d, b.d, c.d);
  vp_assert(t.ok() == (n == m && n == k), "an error exactly when some size differs");
}
#pragma clang attribute pop
VP_BOUNDED(array_helpers) {
  int64_t n = rnd_n(); Arr<int> a(n, false); Arr<Bytes> s(n, false);
  int64_t at = 0; a.d.ForEach([&](int64_t id, bool p, int v) { vp_assert(id == at && p == a.e[id].has_value() && (!p || v == *a.e[id]), "each element in order"); ++at; });
  vp_assert(at == n, "all elements");
  at = 0; s.d.ForEachByGroups([&](int64_t) { return [&](int64_t id, bool p, absl::string_view v) { vp_assert(id == at && p == s.e[id].has_value() && (!p || v == absl::string_view(*s.e[id])), "each element in order (groups)"); ++at; }; });
  vp_assert(at == n, "all elements");
  int64_t last = -1, cnt = 0; a.d.ForEachPresent([&](int64_t id, int v) { vp_assert(id > last && a.e[id] && v == *a.e[id], "present elements in order"); last = id; ++cnt; });
  vp_assert(cnt == a.d.PresentCount(), "every present element");
  int64_t from = vp_native_random(n + 1), len = vp_native_random(n - from + 1);
  same<int>(a.d.Slice(from, len), len, [&](int64_t i) { return a.e[from + i]; });
  same<int>(a.d.Slice(from, len).ForceNoBitmapBitOffset(), len, [&](int64_t i) { return a.e[from + i]; });
  same<int>(a.d.MakeOwned(), n, [&](int64_t i) { return a.e[i]; });
  same<Unit>(a.d.ToMask(), n, [&](int64_t i) { return a.e[i] ? O<Unit>(Unit{}) : O<Unit>(); });
  auto again = CreateDenseArray<int>(a.e.begin(), a.e.end());
  vp_assert(ArraysAreEquivalent(a.d, again), "equal content is equivalent");
  if (n) { int64_t k = vp_native_random(n); auto e = a.e; e[k] = e[k] ? (vp_native_random(2) ? O<int>() : O<int>(*e[k] + 1)) : O<int>(0); vp_assert(!ArraysAreEquivalent(a.d, CreateDenseArray<int>(e.begin(), e.end())), "different content is not equivalent"); }
  DenseArrayBuilder<int> bld(n);
  std::vector<int64_t> ids; for (int64_t i = 0; i < n; ++i) ids.insert(ids.begin() + vp_native_random(i + 1), i);
  for (int64_t i : ids) if (a.e[i] || vp_native_random(2)) bld.Set(i, a.e[i]);
  if (vp_native_random(2)) { int64_t k = vp_native_random(n + 1); same<int>(std::move(bld).Build(k), k, [&](int64_t i) { return a.e[i]; }); }
  else same<int>(std::move(bld).Build(), n, [&](int64_t i) { return a.e[i]; });
  DenseArrayBuilder<Bytes> c(n); int64_t r0 = vp_native_random(n + 1), r1 = vp_native_random(n - r0 + 1);
  c.SetNConst(r0, r1, Bytes("x"));
  same<Bytes>(std::move(c).Build(), n, [&](int64_t i) { return i >= r0 && i < r0 + r1 ? O<Bytes>(Bytes("x")) : O<Bytes>(); });
}
#endif
