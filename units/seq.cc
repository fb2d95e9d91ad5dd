// Contracts for arolla/sequence/*.h, qexpr/operators/seq/sequence_operators.h,
// qexpr/operators/bootstrap/sequence_operators.{h,cc}
#ifdef VP_SYMBOLIC
#define NDEBUG        // frame layouts without their debug-only field registry
#define VP_NODCHECK   // (DCHECKs are still executed in the native runs)
#endif
#include <cstring>
#include <memory>
#include <vector>
#include "vp.h"
#include "models.h"
#include "absl/types/span.h"
#include "arolla/memory/frame.h"
#include "arolla/qtype/qtype.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qexpr/operators/seq/sequence_operators.h"
#include "arolla/sequence/mutable_sequence.h"
#undef AROLLA_OPERATORS_SEQ_SEQUENCE_OPERATORS_H_
#include "arolla/qexpr/operators/bootstrap/sequence_operators.cc"
#include "arolla/qtype/tuple_qtype.h"
#include "qtype_model.h"
#include "stubs.h"
#include "arolla/qtype/typed_ref.cc"
using namespace arolla;
using i128 = __int128;

#ifdef VP_SYMBOLIC
// Stand-in: sequences get fresh memory of size * B bytes (or an error).
// MutableSequence::Make itself is covered by the native contracts.
static void* the_memory;
static uint64_t the_size;
absl::StatusOr<MutableSequence> MutableSequence::Make(QTypePtr t, size_t size) {
  if (size > (uint64_t{1} << 40)) return absl::InvalidArgumentError("");
  MutableSequence r;
  r.value_qtype_ = t;
  r.size_ = size;
  if (size) r.data_ = std::shared_ptr<void>(std::shared_ptr<void>(), the_memory && size == the_size ? the_memory : vp_alloc(size * t->type_layout().AllocSize()));
  return r;
}
template <class T> static T* memory_for(uint64_t n) { the_size = n; the_memory = vp_array<T>("mem", n); return static_cast<T*>(the_memory); }
#else
template <class T> static T* memory_for(uint64_t) { return nullptr; }
#endif

static void check_range(int64_t start, int64_t stop, int64_t step, uint64_t n) {
  if (kVpNative) vp_assume(n <= 100000);
  uint64_t g = vp_size("g", 100);
  int64_t* m = nullptr;
  if (!kVpNative && n <= (uint64_t{1} << 40)) m = memory_for<int64_t>(n);
  uint64_t e = uint64_t(start) + g * uint64_t(step);
  vp_opt("plain");
  vp_opt("noauto");
  VP_INV1(t, t <= n);
  VP_INV2(t, y, y == uint64_t(start) + t * uint64_t(step));
  VP_INV2(t, y, t != g || y == e);
  VP_INV1(t, !(m && g < t && t <= n) || uint64_t(m[g]) == e);
  auto r = SequenceRangeOpFamily::MakeRange(start, stop, step);
  if (n > (uint64_t{1} << 40)) { vp_assert(!r.ok(), "no memory for that many"); return; }
  vp_assert(r.ok() && r->size() == n, "exactly the numbers from start to stop");
  vp_assume(g < n);
  const int64_t* p = static_cast<const int64_t*>(r->RawAt(g, 8));
  vp_assert(uint64_t(*p) == e, "element g is start + g * step");
}
// A step that makes for few elements, for the native runs.
static int64_t any_step(uint64_t d) {
  int64_t s = vp_any<int64_t>("step");
  if (kVpNative && vp_any<bool>("few")) s = vp_any<bool>("neg") ? -int64_t(d / (1 + (uint64_t(s) & 15)) / 2) : int64_t(d / (1 + (uint64_t(s) & 15)) / 2);
  return s;
}
VP_CONTRACT(range_up) {
  Types<int64_t> types;
  int64_t start = vp_any<int64_t>("start"), stop = vp_any<int64_t>("stop");
  uint64_t d = uint64_t(stop) - uint64_t(start);
  int64_t step = any_step(d);
  vp_assume(step > 0 && start < stop);
  check_range(start, stop, step, (d - 1) / uint64_t(step) + 1);  // ceil(d / step)
}
VP_CONTRACT(range_down) {
  Types<int64_t> types;
  int64_t start = vp_any<int64_t>("start"), stop = vp_any<int64_t>("stop");
  uint64_t d = uint64_t(start) - uint64_t(stop);
  int64_t step = any_step(d);
  vp_assume(step < 0 && start > stop);
  check_range(start, stop, step, (d - 1) / -uint64_t(step) + 1);
}
VP_CONTRACT(range_empty) {
  Types<int64_t> types;
  int64_t start = vp_any<int64_t>("start"), stop = vp_any<int64_t>("stop"), step = vp_any<int64_t>("step");
  vp_assume(step == 0 || (step > 0 ? start >= stop : start <= stop));
  auto r = SequenceRangeOpFamily::MakeRange(start, stop, step);
  vp_assert(r.ok() == (step != 0), "a zero step is an error");
  if (r.ok()) vp_assert(r->size() == 0, "an empty range");
}

// A sequence of n elements at p.
template <class T> struct In : Types<T> {
  uint64_t n; T* p; Sequence s;
  In() : n(vp_size("n", 12)), p(vp_array<T>("a", n)), s(this->elem(), n, std::shared_ptr<const void>(std::shared_ptr<const void>(), p)) {}
};
template <class T> static void access() {
  In<T> in;
  uint64_t g = vp_size("g", 12), off = vp_size("off", 12), m = vp_nd_size("count", ~uint64_t{0}, 14);
  vp_assert(in.s.size() == in.n && in.s.RawData() == in.p && in.s.value_qtype() == in.elem(), "size, data and type");
  if (g < in.n) {
    vp_assert(in.s.RawAt(g, sizeof(T)) == in.p + g, "RawAt");
    vp_assert(in.s.GetRef(g).GetRawPointer() == in.p + g && in.s.GetRef(g).GetType() == in.elem(), "GetRef");
  }
  vp_assert(in.s.template UnsafeSpan<T>().data() == in.p && in.s.template UnsafeSpan<T>().size() == in.n, "UnsafeSpan");
  vp_assume(off <= in.n);
  Sequence r = in.s.subsequence(off, m);
  uint64_t left = in.n - off;
  vp_assert(r.size() == (m < left ? m : left) && r.value_qtype() == in.elem(), "size of a subsequence");
  vp_assert(r.size() == 0 || r.RawData() == in.p + off, "a subsequence begins at its offset");
}
VP_CONTRACT(access_int32) { access<int32_t>(); }
VP_CONTRACT(access_int64) { access<int64_t>(); }
VP_CONTRACT(access_bool) { access<bool>(); }
template <class T> static void store() {
  Types<T> types;
  uint64_t n = vp_size("n", 12), g = vp_size("g", 12), k = vp_size("k", 12);
  vp_assume(g < n && k < n);
  auto m = MutableSequence::Make(types.elem(), n);
  vp_assume(m.ok());
  vp_assert(m->size() == n && m->value_qtype() == types.elem(), "size and type");
  T v = vp_any<T>("v"), old = vp_any<T>("old");
  auto set = [&](uint64_t i, T x) { m->UnsafeSetRef(i, TypedRef::UnsafeFromRawPointer(types.elem(), &x)); };
  set(k, old);
  set(g, v);
  vp_assert(*static_cast<T*>(m->RawAt(g, sizeof(T))) == v, "the element set is read back");
  vp_assert(m->GetRef(g).GetRawPointer() == m->RawAt(g, sizeof(T)) && m->template UnsafeSpan<T>().data() + g == m->RawAt(g, sizeof(T)), "all accessors agree");
  const void* data = m->RawData();
  Sequence s = std::move(*m).Finish();
  vp_assert(s.size() == n && s.RawData() == data, "Finish keeps the elements");
  vp_assert(*static_cast<const T*>(s.RawAt(k, sizeof(T))) == (k == g ? v : old), "other elements are untouched");
}
VP_CONTRACT(store_int32) { store<int32_t>(); }
VP_CONTRACT(store_int64) { store<int64_t>(); }

// Runs an operator whose DoBind does not depend on the operator object.
template <class T> struct Frame {
  Sequence seq; int64_t a, b; Sequence out; T value; int64_t size;
};
template <class Op> static const Op& op_without_state() {
  alignas(16) static char storage[sizeof(Op)];
  return *reinterpret_cast<const Op*>(storage);
}
#define OFF(T, f) __builtin_offsetof(Frame<T>, f)
template <class T, class Op, class F> static void run(const Types<T>& ty, F& f, std::initializer_list<std::pair<int, uint64_t>> in, std::pair<int, uint64_t> out, EvaluationContext& ctx) {
#ifdef VP_SYMBOLIC
  std::vector<TypedSlot> slots;
  for (auto& [k, o] : in) slots.push_back(TypedSlot::UnsafeFromOffset(ty.elem(), o));
  auto b = op_without_state<Op>().Op::DoBind(slots, TypedSlot::UnsafeFromOffset(ty.elem(), out.second));
  vp_assert(b.ok(), "binds");
  (*b)->Run(&ctx, FramePtr(&f, nullptr));
#else
  FrameLayout layout;
  QTypePtr types[] = {GetSequenceQType<T>(), GetQType<int64_t>(), GetQType<T>()};
  std::vector<TypedSlot> slots;
#ifndef NDEBUG
  auto add = [&](int k, uint64_t o) { layout.registered_fields_.emplace(o, std::type_index(types[k]->type_info())); };
  for (auto& [k, o] : in) add(k, o);
  add(out.first, out.second);
#endif
  for (auto& [k, o] : in) slots.push_back(TypedSlot::UnsafeFromOffset(types[k], o));
  auto b = op_without_state<Op>().Op::DoBind(slots, TypedSlot::UnsafeFromOffset(types[out.first], out.second));
  vp_assert(b.ok(), "binds");
  (*b)->Run(&ctx, FramePtr(&f, &layout));
#endif
}
enum { SEQ, INT, ELEM };
template <class T> static void slice() {
  In<T> in;
  EvaluationContext ctx;
  int64_t start = vp_any<int64_t>("start"), stop = vp_any<int64_t>("stop");
  Frame<T> f{in.s, start, stop, in.s, T{}, 0};
  i128 n = in.n, lo = start, hi = stop;
  if (lo < 0) lo += n;
  if (hi < 0) hi += n;
  lo = lo < 0 ? 0 : lo > n ? n : lo;
  hi = hi < lo ? lo : hi > n ? n : hi;
  run<T, SequenceSliceOp>(in, f, {{SEQ, OFF(T, seq)}, {INT, OFF(T, a)}, {INT, OFF(T, b)}}, {SEQ, OFF(T, out)}, ctx);
  vp_assert(ctx.status().ok() && !ctx.signal_received(), "never an error");
  vp_assert(i128(f.out.size()) == hi - lo, "size of the slice");
  vp_assert(f.out.size() == 0 || f.out.RawData() == in.p + uint64_t(lo), "the slice begins at start");
}
VP_CONTRACT(slice_int64) { slice<int64_t>(); }
VP_CONTRACT(slice_int32) { slice<int32_t>(); }
template <class T> static void at() {
  In<T> in;
  EvaluationContext ctx;
  int64_t i = vp_any<int64_t>("i");
  T old = vp_any<T>("old");
  Frame<T> f{in.s, i, 0, Sequence(), old, 0};
  run<T, SequenceAtOpFamily::SequenceAtOp>(in, f, {{SEQ, OFF(T, seq)}, {INT, OFF(T, a)}}, {ELEM, OFF(T, value)}, ctx);
  bool in_range = i >= 0 && uint64_t(i) < in.n;
  vp_assert(ctx.status().ok() == in_range && ctx.signal_received() == !in_range, "an error exactly when the index is out of range");
  vp_assert(f.value == (in_range ? in.p[i] : old), "the element at the index");
}
VP_CONTRACT(at_int64) { at<int64_t>(); }
VP_CONTRACT(at_int32) { at<int32_t>(); }
VP_CONTRACT(size) {
  In<int64_t> in;
  EvaluationContext ctx;
  Frame<int64_t> f{in.s, 0, 0, Sequence(), 0, -1};
  run<int64_t, SequenceSizeOpFamily::GetSequenceSizeOp>(in, f, {{SEQ, OFF(int64_t, seq)}}, {INT, OFF(int64_t, size)}, ctx);
  vp_assert(uint64_t(f.size) == in.n, "seq.size is the number of elements");
}
template <class T> static void repeat() {
  Types<T> ty;
  EvaluationContext ctx;
  T v = vp_any<T>("v");
  int64_t n = vp_any<int64_t>("n");
  if (kVpNative) vp_assume(n < 1000);
  uint64_t g = vp_size("g", 60);
  Frame<T> f{Sequence(), n, 0, Sequence(), v, 0};
  T* m = nullptr;
  if (!kVpNative && n > 0 && n <= int64_t{1} << 40) m = memory_for<T>(n);
  VP_INV1(t, !(m && g < t && t <= n) || m[g] == v);
  run<T, SequenceRepeatOpFamily::SequenceRepeatOp>(ty, f, {{ELEM, OFF(T, value)}, {INT, OFF(T, a)}}, {SEQ, OFF(T, out)}, ctx);
  if (n > int64_t{1} << 40) { vp_assert(!ctx.status().ok(), "no memory for that many"); return; }
  vp_assert(ctx.status().ok(), "no error");
  vp_assert(int64_t(f.out.size()) == (n > 0 ? n : 0), "that many elements, none for a negative count");
  if (g < f.out.size()) vp_assert(*static_cast<const T*>(f.out.RawAt(g, sizeof(T))) == v, "every element is the value");
}
VP_CONTRACT(repeat_int64) { repeat<int64_t>(); }
VP_CONTRACT(repeat_int32) { repeat<int32_t>(); }

#ifndef VP_SYMBOLIC
// ---- bounded stand-ins (native execution only) ------------------------------
static std::string word(uint64_t i) { return std::string(i % 40, 'a' + i % 26) + std::to_string(i); }
VP_BOUNDED(make_text) {
  uint64_t n = vp_size("n", 20), k = vp_size("k", 20);
  auto m = MutableSequence::Make(GetQType<Text>(), n);
  vp_assert(m.ok() && m->size() == n && m->value_qtype() == GetQType<Text>(), "Make: size and type");
  for (auto& t : m->UnsafeSpan<Text>()) vp_assert(t.view().empty(), "elements are initialised");
  std::vector<std::string> want(n);
  for (uint64_t i = 0; i < k && n; ++i) {
    uint64_t j = vp_nd_range("j", 0, n - 1), w = vp_nd_range("w", 0, 99);
    Text t(word(w));
    m->UnsafeSetRef(j, TypedRef::FromValue(t));
    want[j] = word(w);
  }
  Sequence s = std::move(*m).Finish();
  uint64_t off = vp_nd_range("off", 0, n), c = vp_nd_range("count", 0, 25);
  Sequence r = s.subsequence(off, c);
  s = Sequence();  // the slice keeps its elements alive
  vp_assert(r.size() == std::min(c, n - off), "size of the slice");
  for (uint64_t i = 0; i < r.size(); ++i) vp_assert(r.UnsafeSpan<Text>()[i].view() == want[off + i] && r.GetRef(i).UnsafeAs<Text>().view() == want[off + i], "elements of the slice");
}
VP_BOUNDED(make_too_big) {
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume((n >> 60) != 0);
  vp_assert(!MutableSequence::Make(GetQType<int64_t>(), n).ok(), "a size that overflows the address space is an error");
}
struct ZipFrame { Sequence a, b, c, out; };
VP_BOUNDED(zip) {
  uint64_t n[3] = {vp_size("na", 6), vp_size("nb", 6), vp_size("nc", 6)};
  if (vp_any<bool>("same")) n[1] = n[2] = n[0];
  uint64_t args = vp_nd_range("args", 1, 3);
  std::vector<int32_t> va; std::vector<std::string> vb; std::vector<double> vc;
  auto ma = MutableSequence::Make(GetQType<int32_t>(), n[0]); auto mb = MutableSequence::Make(GetQType<Text>(), n[1]); auto mc = MutableSequence::Make(GetQType<double>(), n[2]);
  for (uint64_t i = 0; i < n[0]; ++i) { va.push_back(vp_any<int32_t>("x")); ma->UnsafeSpan<int32_t>()[i] = va[i]; }
  for (uint64_t i = 0; i < n[1]; ++i) { vb.push_back(word(vp_nd_range("w", 0, 99))); mb->UnsafeSpan<Text>()[i] = Text(vb[i]); }
  for (uint64_t i = 0; i < n[2]; ++i) { vc.push_back(vp_nd_range("d", 0, 50) / 8.0); mc->UnsafeSpan<double>()[i] = vc[i]; }
  ZipFrame f{std::move(*ma).Finish(), std::move(*mb).Finish(), std::move(*mc).Finish(), {}};
  QTypePtr all[] = {GetSequenceQType<int32_t>(), GetSequenceQType<Text>(), GetSequenceQType<double>()}, elems[] = {GetQType<int32_t>(), GetQType<Text>(), GetQType<double>()};
  uint64_t offs[] = {offsetof(ZipFrame, a), offsetof(ZipFrame, b), offsetof(ZipFrame, c)};
  FrameLayout layout;
  std::vector<TypedSlot> slots;
  std::vector<QTypePtr> in(all, all + args);
  for (uint64_t i = 0; i < args; ++i) { slots.push_back(TypedSlot::UnsafeFromOffset(all[i], offs[i])); layout.registered_fields_.emplace(offs[i], std::type_index(typeid(Sequence))); }
  layout.registered_fields_.emplace(offsetof(ZipFrame, out), std::type_index(typeid(Sequence)));
  QTypePtr tuple = MakeTupleQType(absl::MakeSpan(elems, args));
  EvaluationContext ctx;
  SequenceZipOp op(in);
  auto b = op.DoBind(slots, TypedSlot::UnsafeFromOffset(GetSequenceQType(tuple), offsetof(ZipFrame, out)));
  vp_assert(b.ok(), "binds");
  (*b)->Run(&ctx, FramePtr(&f, &layout));
  bool same = true;
  for (uint64_t i = 1; i < args; ++i) same = same && n[i] == n[0];
  vp_assert(ctx.status().ok() == same, "an error exactly when the sizes differ");
  if (!same) return;
  vp_assert(f.out.size() == n[0] && f.out.value_qtype() == tuple, "size and type");
  for (uint64_t i = 0; i < n[0]; ++i) {
    auto r = f.out.GetRef(i);
    vp_assert(r.GetField(0).UnsafeAs<int32_t>() == va[i], "first field");
    if (args > 1) vp_assert(r.GetField(1).UnsafeAs<Text>().view() == vb[i], "second field");
    if (args > 2) vp_assert(r.GetField(2).UnsafeAs<double>() == vc[i], "third field");
  }
}
VP_BOUNDED(make_op) {
  uint64_t n = vp_size("n", 8);
  std::vector<int64_t> f(n + 8);
  Sequence* out = new (f.data() + n) Sequence();
  static_assert(sizeof(Sequence) <= 64);
  FrameLayout layout;
  std::vector<TypedSlot> slots;
  for (uint64_t i = 0; i < n; ++i) { f[i] = vp_any<int64_t>("x"); slots.push_back(TypedSlot::UnsafeFromOffset(GetQType<int64_t>(), 8 * i)); layout.registered_fields_.emplace(8 * i, std::type_index(typeid(int64_t))); }
  layout.registered_fields_.emplace(8 * n, std::type_index(typeid(Sequence)));
  EvaluationContext ctx;
  auto b = op_without_state<SequenceMakeOpFamily::SequenceMakeOp>().SequenceMakeOpFamily::SequenceMakeOp::DoBind(slots, TypedSlot::UnsafeFromOffset(GetSequenceQType<int64_t>(), 8 * n));
  vp_assert(b.ok(), "binds");
  (*b)->Run(&ctx, FramePtr(f.data(), &layout));
  vp_assert(ctx.status().ok() && out->size() == n, "as many elements as arguments");
  for (uint64_t i = 0; i < n; ++i) vp_assert(out->UnsafeSpan<int64_t>()[i] == f[i], "the arguments in order");
  out->~Sequence();
}
#endif
