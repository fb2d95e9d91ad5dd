// Contracts for arolla/memory/frame.{h,cc} and memory_allocation.h
#ifdef VP_SYMBOLIC
#define NDEBUG        // without the debug-only registry of fields
#define VP_NODCHECK   // (it is executed in the native runs)
#endif
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "vp.h"
#include "models.h"
#ifdef VP_SYMBOLIC
// Stand-in for absl::flat_hash_map: a list of pairs with distinct keys.
#include "absl/container/flat_hash_map.h"
namespace absl {
template <class K, class V> struct VpMap : std::vector<std::pair<K, V>> {
  using B = std::vector<std::pair<K, V>>;
  auto find(const K& k) { auto i = B::begin(); for (; i != B::end(); ++i) if (i->first == k) break; return i; }
  std::pair<typename B::iterator, bool> emplace(const K& k, const V& v) { B::emplace_back(k, v); return {B::end() - 1, true}; }
};
}
#define flat_hash_map VpMap
#endif
#include "arolla/memory/frame.h"
#include "arolla/memory/frame.cc"
#include "arolla/memory/memory_allocation.h"
using namespace arolla;
struct ProbeD;
namespace arolla { template <> struct is_bzero_constructible<ProbeD> : std::true_type {}; }
using Builder = FrameLayout::Builder;
constexpr uint64_t kMax = uint64_t{1} << 40;

// A builder that has handed out the bytes below `used`, with an alignment that
// is a power of two.
static Builder some_builder(uint64_t used, uint64_t align) {
  Builder b;
  b.alloc_size_ = used;
  b.alloc_alignment_ = align;
  return b;
}
// Calls f with a power of two.
template <class F> void with_alignment(const char* name, F f) {
  switch (vp_nd_range(name, 0, 4)) {
    case 0: f(uint64_t{1}); break;
    case 1: f(uint64_t{2}); break;
    case 2: f(uint64_t{4}); break;
    case 3: f(uint64_t{8}); break;
    default: f(uint64_t{16}); break;
  }
}
template <class T> void add_slot() {
  with_alignment("align", [](uint64_t align) {
    uint64_t used = vp_size("used", 1000);
    Builder b = some_builder(used, align);
    auto s = b.AddSlot<T>();
    uint64_t at = s.byte_offset();
    vp_assert(at >= used, "a slot lies after every byte handed out before");
    vp_assert(at % alignof(T) == 0, "a slot is aligned for its type");
    vp_assert(at + sizeof(T) <= b.alloc_size_, "a slot lies inside the frame, and its bytes are handed out");
    vp_assert(at - used < alignof(T), "no more than the padding needed is wasted");
    vp_assert(b.alloc_alignment_ == (align > alignof(T) ? align : alignof(T)), "the alignment of the frame is the maximum needed");
    auto t = b.AddSlot<char>();
    vp_assert(t.byte_offset() >= at + sizeof(T), "the next slot does not overlap");
    uint64_t end = b.alloc_size_, a = b.alloc_alignment_;
    FrameLayout l = std::move(b).Build();
    vp_assert(l.AllocSize() >= end && l.AllocSize() - end < a && l.AllocSize() % a == 0 && l.AllocAlignment() == a, "the layout holds all slots and its size is a multiple of its alignment");
  });
}
template <uint64_t S, uint64_t A> struct alignas(A) Blob { char c[S]; };
VP_CONTRACT(add_slot_1_1) { add_slot<char>(); }
VP_CONTRACT(add_slot_3_1) { add_slot<Blob<3, 1>>(); }
VP_CONTRACT(add_slot_2_2) { add_slot<int16_t>(); }
VP_CONTRACT(add_slot_6_2) { add_slot<Blob<6, 2>>(); }
VP_CONTRACT(add_slot_4_4) { add_slot<int32_t>(); }
VP_CONTRACT(add_slot_12_4) { add_slot<Blob<12, 4>>(); }
VP_CONTRACT(add_slot_8_8) { add_slot<int64_t>(); }
VP_CONTRACT(add_slot_40_8) { add_slot<Blob<40, 8>>(); }
VP_CONTRACT(add_slot_16_16) { add_slot<Blob<16, 16>>(); }
VP_CONTRACT(add_slot_48_16) { add_slot<Blob<48, 16>>(); }
VP_CONTRACT(add_sub_frame) {
  with_alignment("align", [](uint64_t align) {
    with_alignment("sub_align", [&](uint64_t sub) {
      uint64_t used = vp_size("used", 1000), size = vp_size("sub_size", 1000);
      vp_assume(size % sub == 0);
      FrameLayout l = some_builder(size, sub).Build();
      vp_assert(l.AllocSize() == size && l.AllocAlignment() == sub, "the layout of the subframe");
      Builder b = some_builder(used, align);
      uint64_t at = b.AddSubFrame(l).byte_offset();
      vp_assert(at >= used && at % sub == 0 && at - used < sub, "a subframe lies after every byte handed out before, at its alignment");
      vp_assert(at + size <= b.alloc_size_, "the bytes of a subframe are handed out");
      vp_assert(b.alloc_alignment_ == (align > sub ? align : sub), "the alignment of the frame is the maximum needed");
    });
  });
}
VP_CONTRACT(register_slot) {
  uint64_t used = vp_size("used", 40), at = vp_any<uint64_t>("at"), size = vp_any<uint64_t>("size");
  if (kVpNative && vp_any<bool>("small")) { at %= 50; size %= 50; }
  Builder b = some_builder(used, 1);
  auto s = b.RegisterUnsafeSlot(at, size, typeid(int));
  bool inside = at <= used && size <= used - at;
  vp_assert(s.ok() == inside, "a slot can be registered exactly inside the frame");
}
// ---- construction and destruction of the fields of one type ----------------
// A type that counts what happens at one address.
static const void* watch; static volatile uint64_t births, deaths;
struct Probe { Probe() { births = births + (this == watch); } Probe(const Probe&) = delete; ~Probe() { deaths = deaths + (this == watch); } char c; };
struct ProbeD { ~ProbeD() { deaths = deaths + (this == watch); } char c = 0; };
struct ProbeC { ProbeC() { births = births + (this == watch); } char c; };
template <class T> void fields(bool destroy) {
  uint64_t n = vp_size("n", 10), g = vp_size("g", 10), size = vp_size("size", 100), w = vp_size("w", 200);
  size_t* offs = vp_array<size_t>("offsets", n);
  char* p = vp_array<char>("frame", size);
  if (kVpNative) for (uint64_t i = 0; i < n; ++i) offs[i] = i * 3 + offs[i] % 3;
  bool listed = vp_any<bool>("listed");
  vp_assume(!listed || g < n);
  VP_ASSUME_FORALL2(offs, n, i, j, offs[i] != offs[j]);
  VP_ASSUME_FORALL(offs, n, i, offs[i] < kMax && (listed || offs[i] != w));
  if (listed) w = offs[g];
  watch = p + w; births = deaths = 0;
  auto f = FrameLayout::FieldFactory::Create<T>();
  absl::Span<const size_t> span(offs, n);
  vp_opt("plain"); vp_opt("noauto");
  VP_INVP(offs, t, t <= n);
  VP_INVP(offs, t, births == (!destroy & listed & (g < t)));
  VP_INVP(offs, t, deaths == (destroy & listed & (g < t)));
  VP_INV0(births + deaths == 0);
  if (destroy) f.destruct_(p, span); else f.construct_(p, span);
  bool b = !std::is_same_v<T, ProbeD> & !destroy & listed, d = !std::is_same_v<T, ProbeC> & destroy & listed;
  vp_assert(births == b && deaths == d, "exactly the fields listed are constructed (destroyed), once each");
}
VP_CONTRACT(construct_fields) { fields<Probe>(false); }
VP_CONTRACT(destroy_fields) { fields<Probe>(true); }
VP_CONTRACT(destroy_fields_without_constructor) { fields<ProbeD>(true); }
VP_CONTRACT(construct_fields_without_destructor) { fields<ProbeC>(false); }
VP_CONTRACT(destroy_fields_without_destructor) { fields<ProbeC>(true); }
// The same for `blocks` consecutive frames of kBlock bytes.
constexpr uint64_t kBlock = 48;
template <class T> void fields_n(bool destroy) {
  uint64_t n = vp_size("n", 10), g = vp_size("g", 10), size = vp_size("size", 400), blocks = vp_nd_size("blocks", uint64_t{1} << 30, 6), k = vp_nd_size("k", uint64_t{1} << 30, 6);
  size_t* offs = vp_array<size_t>("offsets", n);
  char* p = vp_array<char>("frame", size);
  if (kVpNative) for (uint64_t i = 0; i < n; ++i) offs[i] = i * 3 + offs[i] % 3;
  vp_assume(g < n);
  VP_ASSUME_FORALL2(offs, n, i, j, offs[i] != offs[j]);
  VP_ASSUME_FORALL(offs, n, i, offs[i] < kBlock);
  uint64_t at = offs[g];
  watch = p + (at + k * kBlock); births = deaths = 0;
  auto f = FrameLayout::FieldFactory::Create<T>();
  absl::Span<const size_t> span(offs, n);
  vp_opt("plain"); vp_opt("noauto"); vp_opt("narrowcnt=43"); vp_opt("outer");
  VP_INVP(offs, t, t <= n);
  VP_INVV(i, i <= blocks);
  VP_INVV(i, births + deaths == (k < i));
  VP_INVPV(offs, t, i, births + deaths == ((k < i) | ((k == i) & (g < t))));
  VP_INV0(destroy ? births == 0 : deaths == 0);
  if (destroy) f.destruct_n_(p, span, kBlock, blocks); else f.construct_n_(p, span, kBlock, blocks);
  vp_assert(births + deaths == (k < blocks) && (destroy ? births : deaths) == 0, "the field is constructed (destroyed) once in each frame");
}
VP_CONTRACT(construct_fields_of_frames) { fields_n<Probe>(false); }
VP_CONTRACT(destroy_fields_of_frames) { fields_n<Probe>(true); }
// ---- fields ----------------------------------------------------------------
#ifndef VP_SYMBOLIC
static std::map<const void*, int> live;  // fields alive, by address and kind
template <int K> void born(const void* p, size_t align) {
  vp_assert(reinterpret_cast<uintptr_t>(p) % align == 0, "a field is aligned");
  vp_assert(live.emplace(p, K).second, "a field is initialised once");
}
template <int K> void died(const void* p) {
  auto it = live.find(p);
  vp_assert(it != live.end() && it->second == K, "a field is destroyed once, and only if it was initialised");
  live.erase(it);
}
template <int K, uint64_t S, uint64_t A> struct alignas(A) Tracked {
  Tracked() { born<K>(this, A); memset(c, K, S); }
  Tracked(const Tracked&) = delete;
  ~Tracked() { for (char x : c) vp_assert(x == K, "the memory of a field is not written through other fields"); died<K>(this); }
  char c[S];
};
using T1 = Tracked<1, 1, 1>;
using T2 = Tracked<2, 6, 2>;
using T3 = Tracked<3, 24, 8>;
using T4 = Tracked<4, 16, 16>;
struct Zeroed { using ArollaTypeTraits = void; int64_t v = 0; ~Zeroed() { vp_assert(v == 0, "zero-initialised fields are zero"); } };
struct NoDtor { NoDtor() : v(0x5a5a5a5a) {} int32_t v; };
struct Fields {
  std::vector<std::pair<uint64_t, uint64_t>> range;    // bytes of every slot
  std::vector<std::pair<uint64_t, int>> tracked;       // offset, kind
  std::vector<uint64_t> zero, nodtor, strings, align;
  void shift(const Fields& f, uint64_t d) {
    for (auto [a, b] : f.range) range.push_back({a + d, b + d});
    for (auto [a, k] : f.tracked) tracked.push_back({a + d, k});
    for (auto a : f.zero) zero.push_back(a + d);
    for (auto a : f.nodtor) nodtor.push_back(a + d);
    for (auto a : f.strings) strings.push_back(a + d);
  }
};
template <class T> uint64_t add(Builder& b, Fields& f) {
  uint64_t at = b.AddSlot<T>().byte_offset();
  f.range.push_back({at, at + sizeof(T)});
  f.align.push_back(alignof(T));
  vp_assert(at % alignof(T) == 0, "a slot is aligned");
  return at;
}
static FrameLayout random_layout(Fields& f, int depth) {
  Builder b;
  for (int n = vp_native_random(9); n > 0; --n) {
    switch (vp_native_random(depth ? 12 : 10)) {
      case 0: add<char>(b, f); break;
      case 1: f.zero.push_back(add<double>(b, f)); break;
      case 2: f.tracked.push_back({add<T1>(b, f), 1}); break;
      case 3: f.tracked.push_back({add<T2>(b, f), 2}); break;
      case 4: f.tracked.push_back({add<T3>(b, f), 3}); break;
      case 5: f.tracked.push_back({add<T4>(b, f), 4}); break;
      case 6: f.nodtor.push_back(add<NoDtor>(b, f)); break;
      case 7: f.strings.push_back(add<std::string>(b, f)); break;
      case 8: f.zero.push_back(add<std::shared_ptr<int>>(b, f)); break;
      case 9: add<Blob<3, 1>>(b, f); break;
      default: {
        Fields sub;
        FrameLayout l = random_layout(sub, depth - 1);
        uint64_t at = b.AddSubFrame(l).byte_offset();
        vp_assert(at % l.AllocAlignment() == 0, "a subframe is aligned");
        f.shift(sub, at);
        f.align.push_back(l.AllocAlignment());
      }
    }
  }
  FrameLayout l = std::move(b).Build();
  std::sort(f.range.begin(), f.range.end());
  for (uint64_t i = 0; i < f.range.size(); ++i) {
    vp_assert(f.range[i].second <= l.AllocSize(), "every slot lies inside the frame");
    if (i) vp_assert(f.range[i - 1].second <= f.range[i].first, "slots do not overlap");
  }
  uint64_t need = 1;
  for (uint64_t a : f.align) need = a > need ? a : need;
  vp_assert(l.AllocAlignment() == need && l.AllocSize() % need == 0, "the frame has the alignment needed");
  return l;
}
static void check_frame(const Fields& f, char* p, size_t count_before) {
  for (auto [at, k] : f.tracked) { auto it = live.find(p + at); vp_assert(it != live.end() && it->second == k, "every field is initialised"); }
  for (auto at : f.zero) { double v; memcpy(&v, p + at, 8); vp_assert(v == 0, "fields that need zeroes are zeroed"); }
  for (auto at : f.nodtor) vp_assert(reinterpret_cast<NoDtor*>(p + at)->v == 0x5a5a5a5a, "fields with a constructor are constructed");
  for (auto at : f.strings) { auto& s = *reinterpret_cast<std::string*>(p + at); vp_assert(s.empty(), "strings are constructed"); s = "long enough not to be stored in place"; }
  for (auto& [a, k] : live) (void)a;
}
VP_BOUNDED(fields_live_exactly_with_the_frame) {
  live.clear();
  Fields f;
  FrameLayout l = random_layout(f, 3);
  {
    MemoryAllocation m(&l);
    vp_assert(m.IsValid() && live.size() == f.tracked.size(), "creating a frame initialises each field once");
    check_frame(f, static_cast<char*>(m.frame().GetRawPointer(0)), 0);
    MemoryAllocation n(&l), o(std::move(m));
    vp_assert(live.size() == 2 * f.tracked.size() && !m.IsValid() && o.IsValid(), "moving an allocation moves the frame");
    o = std::move(n);
    vp_assert(live.size() == f.tracked.size(), "assigning an allocation destroys the old frame");
  }
  vp_assert(live.empty(), "destroying a frame destroys each field");
  uint64_t n = vp_native_random(4), size = l.AllocSize();
  auto mem = AlignedAlloc(std::align_val_t{l.AllocAlignment()}, size * n + l.AllocAlignment());
  char* p = static_cast<char*>(mem.get());
  memset(p, 0xee, size * n + l.AllocAlignment());
  l.InitializeAlignedAllocN(p, n);
  vp_assert(live.size() == n * f.tracked.size(), "each field of each frame is initialised once");
  for (uint64_t i = 0; i < n; ++i) check_frame(f, p + i * size, 0);
  l.DestroyAllocN(p, n);
  vp_assert(live.empty(), "each field of each frame is destroyed once");
}
#endif
