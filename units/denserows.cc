// Contracts for arolla/dense_array/ops/{util.h,universal_dense_op.h}: row iteration and the universal operation.
#ifdef VP_SYMBOLIC
#define NDEBUG
#define VP_NODCHECK   // (DCHECKs are still executed in the native runs)
#define GetWordWithOffset GetWordWithOffsetReal
#define GetWord GetWordReal
#endif
#include "vp.h"
#include "models.h"
#ifdef VP_SYMBOLIC
#define IterateByGroups IterateByGroupsReal
#include "arolla/dense_array/bitmap.h"
#undef IterateByGroups
#undef GetWordWithOffset
#undef GetWord
// Stand-in with the contract of bitmap::GetWordWithOffset / GetWord (discharged for the real
// functions in units/bitmap.cc), instantiated at the element the contract looks at.
static uint64_t the_row;
namespace arolla::bitmap {
inline Word GetWordWithOffset(const Bitmap& b, int64_t i, int off) {
  vp_assert(i >= 0 && (b.empty() || uint64_t(i) * 32 + off < uint64_t(b.size()) * 32), "word index in range");
  Word w = vp_any<Word>("word");
  uint64_t at = the_row + off;
  vp_assume((uint64_t(i) != the_row >> 5) | (((w >> (the_row & 31)) & 1) == (b.empty() ? 1 : (b.begin()[at >> 5] >> (at & 31)) & 1)));
  return w;
}
inline Word GetWord(const Bitmap& b, int64_t i) { return GetWordWithOffset(b, i, 0); }
}  // namespace arolla::bitmap
#endif
#include "dense.h"
#include "arolla/dense_array/ops/dense_ops.h"
#include "arolla/dense_array/ops/util.h"
using namespace arolla;
#ifndef VP_SYMBOLIC
static uint64_t the_row;
#endif
template <class Go> static void iterate(bool zero, Go go) {
  vp_opt("plain"); vp_opt("noauto"); vp_opt("outer"); vp_opt("narrow=43");
  Opt<int32_t> a("n", "a", "wa", "offa", 70), b(a.n, "b", "wb", "offb");
  uint64_t from = zero ? 0 : vp_size("from", 70), to = vp_size("to", 70);
  vp_assume(from <= to && to <= a.n);
  uint64_t g = vp_size("g", 70); vp_assume(from <= g && g < to);
  the_row = g;
  bool pa = a.has(g), pb = b.has(g); int32_t va = a.p[g], vb = b.p[g];
  volatile uint64_t next = from; volatile bool seen = false;
  uint64_t base = zero ? 0 : 32 * (from >> 5), last = zero ? 0 : 32 * (to >> 5);
  VP_INV1(t, t <= 32);
  VP_INV1(t, t <= to + 31);
  VP_INV1(t, (t & 31) == 0);
  VP_INV1(t, next == (t < to ? t : to));
  VP_INV1(t, next == (32 * t < to ? 32 * t : to));
  VP_INV1(t, next == base + t);
  VP_INV1(t, next == last + t);
  VP_INV2(t, u, next == t + u * (zero ? 1 : 32));
  VP_INV0(next <= to);
  VP_INV0(seen == (g < next));
  go(from, to, a.get(), b.get(), [&](int64_t id, bool valid, int32_t x, OptionalValue<int32_t> y) {
    vp_assert(uint64_t(id) == next, "rows are visited in order, once each");
    bool it = uint64_t(id) == g;
    seen = seen | it;
    vp_assert(!it | (valid == pa & y.present == pb), "presence of the row");
    vp_assert(!it | !valid | x == va, "value of the first argument");
    vp_assert(!it | !y.present | y.value == vb, "value of the optional argument");
    next = next + 1;
  });
  vp_assert(seen && next == to, "every row is visited");
}
using Util = dense_ops_internal::DenseOpsUtil<meta::type_list<int32_t, OptionalValue<int32_t>>>;
VP_CONTRACT(rows_from_zero) { iterate(true, [](uint64_t, uint64_t to, auto a, auto b, auto fn) { Util::IterateFromZero(fn, to, a, b); }); }
VP_CONTRACT(rows) { iterate(false, [](uint64_t from, uint64_t to, auto a, auto b, auto fn) { Util::Iterate(fn, from, to, a, b); }); }
struct Twice { int64_t operator()(int32_t a) const { return 2 * int64_t{a}; } };
struct Memory final : RawBufferFactory {
  void* p[2] = {nullptr, nullptr}; int k = 0; VpFactory heap;
  std::tuple<RawBufferPtr, void*> CreateRawBuffer(size_t n) override { if (kVpNative) return heap.CreateRawBuffer(n); return {nullptr, p[k++]}; }
  std::tuple<RawBufferPtr, void*> ReallocRawBuffer(RawBufferPtr&& o, void* d, size_t a, size_t b) override { return heap.ReallocRawBuffer(std::move(o), d, a, b); }
};
static bool bitc(bitmap_word w, int i) { return (w >> i) & 1; }
static bool has(const DenseArray<int64_t>& r, uint64_t i) { return r.bitmap.empty() || ((r.bitmap.begin()[(i + r.bitmap_bit_offset) >> 5] >> ((i + r.bitmap_bit_offset) & 31)) & 1); }
VP_CONTRACT(universal_unary) {
  vp_opt("plain"); 
  Opt<int32_t> a("n", "a", "w", "off", 70);
  uint64_t g = vp_size("g", 70); vp_assume(g < a.n);
  the_row = g;
  Memory f; int64_t* m = nullptr; bitmap_word* rb = nullptr;
  if (!kVpNative) { f.p[0] = m = vp_array<int64_t>("mem", a.n); f.p[1] = rb = vp_array<bitmap_word>("membits", (a.n + 31) / 32); }
  bool want = a.has(g); int64_t v = 2 * int64_t{a.p[g]};
  uint64_t w = g >> 5; int c = g & 31;
  VP_INVP(m, t, !(m && want && g < t) || m[g] == v);
  VP_INV1(t, !(m && want && g < 32 * t) || m[g] == v);
  VP_INV1(t, !(m && want && g < t) || m[g] == v);
  VP_INV1(t, !(m && want && w < t) || m[g] == v);
  VP_INV1(t, !(rb && w < t) || bitc(rb[w], c) == want);
  VP_INVP(rb, t, !(rb && w < t) || bitc(rb[w], c) == want);
  VP_INV2(t, x, !(x == 1 && w < t) || want);
  auto op = CreateDenseOp(Twice(), &f);
  DenseArray<int64_t> r = op(a.get());
  vp_assert(uint64_t(r.size()) == a.n, "one result per element");
  vp_assert(has(r, g) == want, "present exactly where the argument is");
  vp_assert(!want || r.values.begin()[g] == v, "the scalar operation on that element");
}
// One word of rows, with an optional argument and an optional result: the rows the function declines become missing.
struct Some { OptionalValue<int64_t> operator()(int32_t a, OptionalValue<int32_t> b) const { return {(a & 1) == 0 || b.present, b.present ? int64_t{a} * 4 + (b.value & 3) : int64_t{a}}; } };
template <bool skip> static void eval_group() {
  vp_opt("plain");
  Opt<int32_t> a("n", "a", "wa", "offa", 70), b(a.n, "b", "wb", "offb");
  uint64_t g = vp_size("g", 70); vp_assume(g < a.n);
  the_row = g;
  uint64_t group = g >> 5; int c = g & 31;
  int count = a.n - group * 32 >= 32 ? 32 : a.n - group * 32;
  bool pa = a.has(g);
  bitmap_word mask = vp_any<bitmap_word>("mask");
  if (kVpNative) { mask = 0; for (int i = 0; i < count; ++i) mask |= bitmap_word{a.has(group * 32 + i)} << i; }
  vp_assume(bitc(mask, c) == pa);
  auto r = Some()(a.p[g], OptionalValue<int32_t>{b.has(g), b.p[g]});
  bool want = pa & r.present; int64_t v = r.value;
  int64_t* m = vp_array<int64_t>("mem", a.n);
  int64_t before = m[g];
  VP_INV2(t, x, t <= c || t > 32 || bitc(x, c) == want);
  VP_INV2(t, x, t > c || bitc(x, c) == pa);
  VP_INVP(m, t, t <= g || !want || m[g] == v);
  VP_INV1(t, t <= c || t > 32 || !want || m[g] == v);
  dense_ops_internal::UniversalDenseOp<Some, int64_t, skip, false> op{Some()};
  VpFixedFactory f(m);
  typename Buffer<int64_t>::Builder bld(a.n, &f);
  absl::Status s = op.EvalGroup(group, mask, bld.GetInserter(group * 32), count, a.get(), b.get());
  vp_assert(s.ok(), "no error");
  vp_assert(bitc(mask, c) == want, "present exactly when the required argument is and the function returns a value");
  vp_assert(!want || m[g] == v, "the value the function returns");
}
VP_CONTRACT(universal_group_skipping_missing) { eval_group<true>(); }
VP_CONTRACT(universal_group_running_on_missing) { eval_group<false>(); }
