// Contracts for arolla/qexpr/operators/{dense_array,array}/logic_ops.h and the
// array form of arolla/qexpr/operators/bool/logic.h
#ifdef VP_SYMBOLIC
#define NDEBUG
#define VP_NODCHECK   // (DCHECKs are executed in the native runs)
#else
#include <optional>
#include <string>
#include <vector>
#endif
#include "vp.h"
#include "models.h"
#include "dense.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/operators/dense_array/logic_ops.h"
#ifndef VP_SYMBOLIC
#include "arolla/qexpr/operators/array/logic_ops.h"
#include "arolla/qexpr/operators/bool/logic.h"
#include "arolla/util/bytes.h"
#include "rnd.h"
#endif
using namespace arolla;
#ifdef VP_SYMBOLIC
namespace arolla { absl::Status SizeMismatchError(std::initializer_list<int64_t>) { return absl::InvalidArgumentError(""); } }
#endif
// Hands out the given memory (native: fresh memory).
struct Memory final : RawBufferFactory {
  void* p = nullptr; VpFactory heap;
  std::tuple<RawBufferPtr, void*> CreateRawBuffer(size_t n) override { if (kVpNative || p == nullptr) return heap.CreateRawBuffer(n); return {nullptr, p}; }
  std::tuple<RawBufferPtr, void*> ReallocRawBuffer(RawBufferPtr&& o, void* d, size_t a, size_t b) override { return heap.ReallocRawBuffer(std::move(o), d, a, b); }
};
static bool bitc(bitmap_word w, int i) { return (w >> i) & 1; }
template <class T> static bool has(const DenseArray<T>& r, uint64_t i) { return r.bitmap.empty() || bitc(r.bitmap.begin()[(i + r.bitmap_bit_offset) >> 5], (i + r.bitmap_bit_offset) & 31); }
template <class T> static bool well_formed(const DenseArray<T>& r) { return r.bitmap.empty() || uint64_t(r.bitmap.size()) >= (uint64_t(r.size()) + r.bitmap_bit_offset + 31) / 32; }
VP_CONTRACT(dense_has) {
  Opt<int32_t> a("n", "a", "w", "off", 70);
  bool full = vp_any<bool>("full");
  uint64_t g = vp_size("g", 70); vp_assume(g < a.n);
  auto r = DenseArrayHasOp()(full ? DenseArray<int32_t>{vp_buffer(a.p, a.n)} : a.get());
  vp_assert(uint64_t(r.size()) == a.n && well_formed(r), "one result per element");
  vp_assert(has(r, g) == (full | a.has(g)), "present exactly where the argument is");
}
VP_CONTRACT(dense_not) {
  vp_opt("plain");
  Opt<int32_t> a("n", "a", "w", "off", 70);
  uint64_t g = vp_size("g", 70); vp_assume(g < a.n);
  uint64_t k = (g + a.off) >> 5; int c = (g + a.off) & 31;
  Memory f; bitmap_word* m = nullptr;
  if (!kVpNative) f.p = m = vp_array<bitmap_word>("mem", a.nw);
  VP_INV1(t, !(k < t && t <= a.nw) || a.w[k] == 0);
  VP_INV1(t, !(m && k < t && t <= a.nw) || m[k] == ~a.w[k]);
  EvaluationContext ctx(EvaluationOptions{.buffer_factory = &f});
  auto r = DenseArrayPresenceNotOp()(&ctx, a.get());
  vp_assert(uint64_t(r.size()) == a.n && well_formed(r), "one result per element");
  vp_assert(has(r, g) == !a.has(g), "present exactly where the argument is missing");
}
// (arrays of operators have no bit offset)
VP_CONTRACT(dense_and) {
  vp_opt("plain");
  Opt<int32_t> a("n", "a", "wa", "offa", 70), b(a.n, "b", "wb", "offb");
  if (kVpNative) for (auto* o : {&a, &b}) o->off = 0, o->nw = (a.n + 31) / 32;
  vp_assume(a.off == 0 && b.off == 0);
  bool ea = vp_any<bool>("ea"), eb = vp_any<bool>("eb");
  uint64_t g = vp_size("g", 70); vp_assume(g < a.n);
  Memory f; bitmap_word* m = nullptr;
  if (!kVpNative) f.p = m = vp_array<bitmap_word>("mem", a.nw);
  uint64_t k = g >> 5; int c = g & 31;
  bool want = (ea | a.has(g)) & (eb | b.has(g));
  VP_INV1(t, !(m && k < t && t <= a.nw) || bitc(m[k], c) == want);
  EvaluationContext ctx(EvaluationOptions{.buffer_factory = &f});
  DenseArray<Unit> u{VoidBuffer(b.n)};
  if (!eb) u.bitmap = vp_buffer(b.w, b.nw);
  auto r = DenseArrayPresenceAndOp()(&ctx, ea ? DenseArray<int32_t>{vp_buffer(a.p, a.n)} : a.get(), u);
  vp_assert(r.ok(), "sizes are equal");
  vp_assert(uint64_t(r->size()) == a.n && well_formed(*r), "one result per element");
  vp_assert(has(*r, g) == want, "present exactly where both arguments are");
  vp_assert(!want || r->values.begin()[g] == a.p[g], "the value of the first");
}
VP_CONTRACT(dense_and_sizes) {
  Full<int32_t> a("n", "a");
  uint64_t n = vp_size("m", 12);
  Memory f; EvaluationContext ctx(EvaluationOptions{.buffer_factory = &f});
  auto r = DenseArrayPresenceAndOp()(&ctx, a.get(), DenseArray<Unit>{VoidBuffer(n)});
  vp_assert(r.ok() == (a.n == n), "an error exactly when the sizes differ");
}
#ifndef VP_SYMBOLIC
// ---- bounded ----
template <class T> using El = std::vector<std::optional<T>>;
template <class T> static void is(const DenseArray<T>& r, const El<T>& e) {
  vp_assert(r.size() == int64_t(e.size()) && r.CheckBitmapMatchesValues(), "one result per element");
  for (size_t i = 0; i < e.size(); ++i) vp_assert(eqo<T>(r[i], e[i]), "element");
}
template <class T> static El<T> either(const El<T>& a, const El<T>& b) { El<T> r; for (size_t i = 0; i < a.size(); ++i) r.push_back(a[i] ? a[i] : b[i]); return r; }
template <class T> static void dense() {
  int64_t n = rnd_n(); Arr<T> a(n, true), b(n, true); Arr<Unit> u(n, true);
  EvaluationContext ctx;
  is<T>(*DenseArrayPresenceOrOp()(&ctx, a.d, b.d), either(a.e, b.e));
  std::optional<T> x; if (vp_native_random(3)) x = Rnd<T>::value();
  is<T>(DenseArrayPresenceOrOp()(&ctx, a.d, OptionalValue<T>(x)), either(a.e, El<T>(n, x)));
  El<T> both; for (int64_t i = 0; i < n; ++i) both.push_back(u.e[i] ? a.e[i] : std::nullopt);
  is<T>(*DenseArrayPresenceAndOp()(&ctx, a.d, u.d), both);
  El<Unit> h, no; for (auto& y : a.e) { h.push_back(y ? std::optional<Unit>(Unit{}) : std::nullopt); no.push_back(y ? std::nullopt : std::optional<Unit>(Unit{})); }
  is<Unit>(DenseArrayHasOp()(a.d), h);
  is<Unit>(DenseArrayPresenceNotOp()(&ctx, a.d), no);
  Arr<T> c(n + 1, true); Arr<Unit> v(n + 1, true);
  vp_assert(!DenseArrayPresenceOrOp()(&ctx, a.d, c.d).ok() && !DenseArrayPresenceAndOp()(&ctx, a.d, v.d).ok(), "different sizes are an error");
}
VP_BOUNDED(dense_int) { dense<int32_t>(); }
VP_BOUNDED(dense_double) { dense<double>(); }
VP_BOUNDED(dense_bytes) { dense<Bytes>(); }
template <class T> static void array() {
  int64_t n = rnd_n(); RArr<T> a(n), b(n);
  EvaluationContext ctx;
  is<T>(*ArrayPresenceOrOp()(&ctx, a.a, b.a), either(a.e, b.e));
  T x = Rnd<T>::value();
  is<T>(ArrayPresenceOrOp()(&ctx, a.a, x), either(a.e, El<T>(n, x)));
  RArr<T> c(n + 1);
  vp_assert(!ArrayPresenceOrOp()(&ctx, a.a, c.a).ok(), "different sizes are an error");
}
VP_BOUNDED(array_int) { array<int32_t>(); }
VP_BOUNDED(array_double) { array<double>(); }
VP_BOUNDED(array_bytes) { array<Bytes>(); }
VP_BOUNDED(logical_if_dense) {
  int64_t n = rnd_n(); Arr<bool> c(n, true); OptionalValue<int32_t> v[3];
  for (auto& x : v) if (vp_native_random(4)) x = int32_t(vp_native_random(50));
  EvaluationContext ctx;
  auto r = LogicalIfOp()(&ctx, c.d, v[0], v[1], v[2]);
  vp_assert(r.size() == n && r.CheckBitmapMatchesValues(), "one result per element");
  for (int64_t i = 0; i < n; ++i) vp_assert(r[i] == (c.e[i] ? *c.e[i] ? v[0] : v[1] : v[2]), "selects by the condition");
}
#endif
