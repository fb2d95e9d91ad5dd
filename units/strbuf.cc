// Contracts for arolla/memory/strings_buffer.{h,cc}
#ifdef VP_SYMBOLIC
#define NDEBUG        // without the debug-only re-validation of offsets
#define VP_NODCHECK   // (it is executed in the native runs)
#endif
#include <string>
#include <vector>
#include "vp.h"
#include "models.h"
#include "factory.h"
#include "arolla/memory/strings_buffer.h"
#include "arolla/memory/strings_buffer.cc"
using namespace arolla;
using Offsets = StringsBuffer::Offsets;
constexpr uint64_t kMax = uint64_t{1} << 40;
template <> struct VpLayout<Offsets> {
  static constexpr unsigned n = 2;
  static constexpr unsigned g[6] = {0, 8, 1, 8, 8, 1};
};
template <class T> SimpleBuffer<T> buffer(T* p, uint64_t n) { return SimpleBuffer<T>(nullptr, absl::Span<const T>(p, n)); }

// Any buffer satisfying the class invariant: n strings over nc characters,
// offsets counted from `base`.
struct Src {
  uint64_t n; Offsets* o; uint64_t nc; char* c; int64_t base;
  Src() : n(vp_size("n", 8)), o(vp_array<Offsets>("offsets", n)), nc(vp_size("nc", 30)), c(vp_array<char>("chars", nc)), base(vp_nd_range("base", 0, kMax)) {
    if (kVpNative) {
      if (vp_any<bool>("zero")) base = 0;
      for (uint64_t i = 0; i < n; ++i) {
        uint64_t a = uint64_t(o[i].start) % (nc + 1), b = uint64_t(o[i].end) % (nc + 1);
        o[i] = {base + int64_t(a < b ? a : b), base + int64_t(a < b ? b : a)};
      }
    }
  }
  StringsBuffer get() const { return StringsBuffer(buffer(o, n), buffer(c, nc), base); }
  uint64_t len(uint64_t i) const { return o[i].end - o[i].start; }
  const char* at(uint64_t i) const { return c + (o[i].start - base); }
};
#define VALID(s) VP_ASSUME_FORALL(s.o, s.n, i, s.base <= s.o[i].start && s.o[i].start <= s.o[i].end && s.o[i].end <= s.base + int64_t(s.nc))

// ---- reading, slicing, copying --------------------------------------------
VP_CONTRACT(read) {
  Src s; VALID(s);
  uint64_t g = vp_size("g", 8);
  vp_assume(g < s.n);
  StringsBuffer b = s.get();
  absl::string_view v = b[g];
  vp_assert(b.size() == int64_t(s.n) && b.empty() == (s.n == 0), "the size of the buffer");
  vp_assert(v.size() == s.len(g) && v.data() == s.at(g), "a string is the range of characters between its offsets");
}
static void slice(int how) {
  Src s; VALID(s);
  uint64_t from = vp_size("from", 8), count = vp_size("count", 8), g = vp_size("g", 8);
  vp_assume(from <= s.n && count <= s.n - from);
  StringsBuffer b = s.get();
  StringsBuffer r = how == 0 ? b.Slice(from, count) : how == 1 ? std::move(b).Slice(from, count) : b.ShallowCopy().Slice(from).Slice(0, count);
  vp_assert(r.size() == int64_t(count), "a slice has the size asked for");
  if (g < count) vp_assert(r[g].size() == s.len(from + g) && r[g].data() == s.at(from + g), "the strings of a slice");
}
VP_CONTRACT(slice_of_lvalue) { slice(0); }
VP_CONTRACT(slice_of_rvalue) { slice(1); }
VP_CONTRACT(slice_of_shallow_copy) { slice(2); }
VP_CONTRACT(deep_copy) {
  Src s; VALID(s);
  uint64_t g = vp_size("g", 8), k = vp_size("k", 30);
  vp_assume(g < s.n);
  vp_opt("plain"); vp_opt("noauto"); vp_opt("narrowcnt=43");
  VP_INVV(x, int64_t(x) >= s.base && int64_t(x) <= s.base + int64_t(s.nc));
  VP_INV1(t, t >= 1 && t <= s.n);
  VP_INVV(x, int64_t(x) <= s.o[0].start);
  VP_INVV(x, int64_t(x) >= s.o[0].end);
  VP_INV2(t, lo, !(g < t) || int64_t(lo) <= s.o[g].start);
  VP_INV2(t, hi, !(g < t) || int64_t(hi) >= s.o[g].end);
  VpFactory heap;
  StringsBuffer b = s.get(), r = b.DeepCopy(&heap);
  vp_assert(r.size() == int64_t(s.n) && r[g].size() == s.len(g), "sizes are preserved");
  if (k < s.len(g)) vp_assert(r[g].data() != s.at(g) && r[g].data()[k] == s.at(g)[k], "characters are copied");
}
// ---- reshuffling -----------------------------------------------------------
struct Default {
  OptionalValue<absl::string_view> v; uint64_t n; char* p;
  Default() : n(vp_size("nd", 5)), p(vp_array<char>("default", n)) {
    if (vp_any<bool>("has_default")) v = absl::string_view(p, n);
  }
};
struct TwoStep final : RawBufferFactory {
  void* first = nullptr;  // memory for the first request, fresh memory afterwards
  std::tuple<RawBufferPtr, void*> CreateRawBuffer(size_t n) override {
    void* p = first ? first : vp_alloc(n);
    first = nullptr;
    return {nullptr, p};
  }
  std::tuple<RawBufferPtr, void*> ReallocRawBuffer(RawBufferPtr&&, void* data, size_t, size_t) override { return {nullptr, data}; }
};
static void reshuffled(bool nonempty) {
  Src s; VALID(s);
  Default d;
  vp_assume(nonempty == (d.v.present && d.n > 0));
  uint64_t m = vp_size("m", 8), g = vp_size("g", 8), k = vp_size("k", 30);
  uint64_t from = vp_size("from", 8), to = vp_size("to", 8), old1 = vp_size("old1", 8), at = vp_size("at", 8), old2 = vp_size("old2", 8);
  vp_assume(g < m && from <= to && to <= m && at < m && old1 < s.n && old2 < s.n);
  TwoStep heap;
  Offsets* o = nullptr;
  if (!kVpNative) heap.first = o = vp_array<Offsets>("mem", m);
  auto unset = [&]() VP_NOSAN { return nonempty ? bool((o[g].start == s.base + int64_t(s.nc)) & (o[g].end == s.base + int64_t(s.nc + d.n))) : bool((o[g].start == o[g].end) & (o[g].start >= s.base) & (o[g].start <= s.base + int64_t(s.nc))); };
  auto done = [&](bool set) VP_NOSAN { bool c = (o[g].start == s.o[old1].start) & (o[g].end == s.o[old1].end); return set ? c : unset(); };
  vp_opt("plain"); vp_opt("noauto"); vp_opt("narrowcnt=43");
  VP_INVP(o, t, t + 0 <= m);
  VP_INVP(o, t, t + 0 >= from && t + 0 <= to);
  VP_INVP(o, t, !(g < t + 0) || unset());
  VP_INVP(o, t, done((from <= g) & (g < t + 0)));
  VP_INVP(o, t, t + 1 <= m);
  VP_INVP(o, t, t + 1 >= from && t + 1 <= to);
  VP_INVP(o, t, !(g < t + 1) || unset());
  VP_INVP(o, t, done((from <= g) & (g < t + 1)));
  StringsBuffer b = s.get();
  StringsBuffer::ReshuffleBuilder rb(m, b, d.v, &heap);
  rb.CopyValueToRange(from, to, old1);
  rb.CopyValue(at, old2);
  StringsBuffer r = std::move(rb).Build();
  vp_assert(r.size() == int64_t(m), "size of the result");
  bool two = g == at, one = !two & (from <= g) & (g < to);
  uint64_t src = two ? old2 : old1;
  absl::string_view v = r[g];
  if (two | one) {
    vp_assert(v.size() == s.len(src), "a copied string has its length");
    if (k < v.size()) vp_assert(v.data()[k] == s.at(src)[k], "a copied string has its characters");
  } else {
    vp_assert(v.size() == (nonempty ? d.n : 0), "an entry that was not set has the length of the default");
    if (k < v.size()) vp_assert(v.data()[k] == d.p[k], "an entry that was not set is the default");
  }
  vp_assert(r.base_offset() <= r.offsets()[g].start && r.offsets()[g].start <= r.offsets()[g].end && r.offsets()[g].end <= r.base_offset() + int64_t(r.characters().size()), "the offsets stay inside the characters of the result");
}
VP_CONTRACT(reshuffle_with_default) { reshuffled(true); }
VP_CONTRACT(reshuffle_without_default) { reshuffled(false); }
// ---- builder ---------------------------------------------------------------
// A builder with any contents that satisfies its invariant.
struct State {
  uint64_t n; Offsets* o; uint64_t cap; char* c; uint64_t used; VpFactory heap; StringsBuffer::Builder b;
  explicit State(bool full = false) : n(vp_size("n", 8)), o(vp_array<Offsets>("offsets", n)), cap(vp_size("cap", 60)), c(vp_array<char>("chars", cap)), used(full ? cap : vp_size("used", 60)) {
    vp_assume(used <= cap);
    if (kVpNative) for (uint64_t i = 0; i < n; ++i) {
      uint64_t x = uint64_t(o[i].start) % (used + 1), y = uint64_t(o[i].end) % (used + 1);
      o[i] = {int64_t(x < y ? x : y), int64_t(x < y ? y : x)};
    }
    b.factory_ = &heap;
    b.offsets_ = RawSpan<Offsets>(o, n);
    b.characters_ = RawSpan<char>(c, cap);
    b.num_chars_ = used;
  }
};
#define VALID_STATE(s) VP_ASSUME_FORALL(s.o, s.n, i, 0 <= s.o[i].start && s.o[i].start <= s.o[i].end && s.o[i].end <= int64_t(s.used))
struct Str {
  uint64_t n; char* p;
  Str() : n(vp_size("nv", 20)), p(vp_array<char>("v", n)) {}
  absl::string_view get() const { return absl::string_view(p, n); }
};
static void set(bool inserter) {
  State s; VALID_STATE(s);
  Str v;
  uint64_t at = vp_size("at", 8), h = vp_size("h", 8), k = vp_size("k", 60), skip = vp_size("skip", 3);
  vp_assume(at < s.n && h < s.n && v.n <= s.cap - s.used && k < s.cap && skip <= at);
  Offsets oh = s.o[h];
  char ck = s.c[k];
  if (inserter) {
    auto ins = s.b.GetInserter(at - skip);
    ins.SkipN(skip);
    ins.Add(v.get());
    vp_assert(ins.offset_ == int64_t(at + 1), "the inserter moves to the next entry");
  } else {
    s.b.Set(at, v.get());
  }
  vp_assert(s.o[at].end - s.o[at].start == int64_t(v.n) && s.o[at].start >= 0 && s.o[at].end <= s.b.num_chars_ && s.b.num_chars_ <= int64_t(s.b.characters_.size()), "the entry has the length of the string");
  if (k < v.n) vp_assert(s.b.characters_.data()[s.o[at].start + k] == v.p[k], "the entry is the string");
  if (h != at) vp_assert(s.o[h].start == oh.start && s.o[h].end == oh.end, "other entries keep their range");
  if (k < s.used) vp_assert(s.b.characters_.data()[k] == ck, "characters of earlier strings are kept");
}
VP_CONTRACT(set_one) { set(false); }
VP_CONTRACT(insert_one) { set(true); }
VP_CONTRACT(copy_entry) {
  State s; VALID_STATE(s);
  uint64_t a = vp_size("a", 8), b = vp_size("b", 8), h = vp_size("h", 8);
  vp_assume(a < s.n && b < s.n && h < s.n);
  Offsets oa = s.o[a], oh = s.o[h];
  s.b.Copy(a, b);
  Offsets want = h == b ? oa : oh;
  vp_assert(s.o[h].start == want.start && s.o[h].end == want.end, "the entry copied to becomes the one copied from, others are kept");
  vp_assert(s.b.num_chars_ == int64_t(s.used), "no characters are added");
}
VP_CONTRACT(set_range) {
  State s; VALID_STATE(s);
  Str v;
  uint64_t first = vp_size("first", 8), count = vp_size("count", 8), h = vp_size("h", 8), k = vp_size("k", 60);
  vp_assume(first <= s.n && count <= s.n - first && h < s.n && v.n <= s.cap - s.used && k < s.cap);
  Offsets oh = s.o[h];
  char ck = s.c[k];
  vp_opt("plain"); vp_opt("noauto"); vp_opt("narrowcnt=43");
  // for a pointer to the next (a = 0) or to the last entry written (a = 1)
  VP_INV0(s.o[first].start == int64_t(s.used) && s.o[first].end == int64_t(s.used + v.n));
  VP_INVP(s.o, t, t + 0 > first && t + 0 <= first + count);
  VP_INVP(s.o, t, !(first <= h && h < t + 0) || (s.o[h].start == s.o[first].start && s.o[h].end == s.o[first].end));
  VP_INVP(s.o, t, (first <= h && h < t + 0) || (s.o[h].start == oh.start && s.o[h].end == oh.end));
  VP_INVP(s.o, t, t + 1 > first && t + 1 <= first + count);
  VP_INVP(s.o, t, !(first <= h && h < t + 1) || (s.o[h].start == s.o[first].start && s.o[h].end == s.o[first].end));
  VP_INVP(s.o, t, (first <= h && h < t + 1) || (s.o[h].start == oh.start && s.o[h].end == oh.end));
  s.b.SetNConst(first, count, v.get());
  if (first <= h && h < first + count) {
    vp_assert(s.o[h].end - s.o[h].start == int64_t(v.n) && s.o[h].start >= 0 && s.o[h].end <= s.b.num_chars_, "each entry of the range has the length of the string");
    if (k < v.n) vp_assert(s.b.characters_.data()[s.o[h].start + k] == v.p[k], "each entry of the range is the string");
  } else {
    vp_assert(s.o[h].start == oh.start && s.o[h].end == oh.end, "entries outside the range are kept");
  }
  if (k < s.used) vp_assert(s.c[k] == ck, "characters of earlier strings are kept");
}
VP_CONTRACT(build_when_full) {
  State s(true); VALID_STATE(s);
  uint64_t m = vp_size("m", 8), g = vp_size("g", 8);
  vp_assume(m <= s.n && g < m);
  StringsBuffer r = std::move(s.b).Build(m);
  vp_assert(r.size() == int64_t(m) && r.base_offset() == 0, "size of the result");
  vp_assert(r[g].data() == s.c + s.o[g].start && r[g].size() == uint64_t(s.o[g].end - s.o[g].start), "the strings of the result");
}
VP_CONTRACT(enough_characters_are_reserved) {
  State s;
  uint64_t add = vp_size("add", 1000);
  vp_assume(s.n >= 1);
  uint64_t r = s.b.EstimateRequiredCharactersSize(add);
  vp_assert(r >= s.used + add, "the estimate leaves room for the string");
}
// ---- histories -------------------------------------------------------------
#ifndef VP_SYMBOLIC
static std::string random_string(int hi = 12) {
  std::string s(vp_native_random(vp_native_random(4) == 0 ? hi * 8 : hi), 'x');
  for (char& c : s) c = vp_native_random(20) == 0 ? '\0' : "abcdef\xff"[vp_native_random(7)];
  return s;
}
using Model = std::vector<std::string>;
static void same(const StringsBuffer& b, const Model& m, const char* what) {
  vp_assert(b.size() == int64_t(m.size()), what);
  for (uint64_t i = 0; i < m.size(); ++i) vp_assert(b[i] == absl::string_view(m[i]), what);
}
static StringsBuffer history(Model& m, RawBufferFactory* f) {
  int n = vp_native_random(9);
  m.assign(n, "");
  auto b = vp_native_random(2) ? StringsBuffer::Builder(n, f) : StringsBuffer::Builder(n, vp_native_random(40), f);
  int steps = n ? vp_native_random(14) : 0;
  for (int i = 0; i < steps; ++i) {
    int at = vp_native_random(n);
    std::string v = random_string();
    switch (vp_native_random(6)) {
      case 0: case 1: b.Set(at, v); m[at] = v; break;
      case 2: { int from = vp_native_random(n); b.Copy(from, at); m[at] = m[from]; break; }
      case 3: { int k = vp_native_random(n - at + 1); b.SetNConst(at, k, v); for (int j = 0; j < k; ++j) m[at + j] = v; break; }
      case 4: { int k = vp_native_random(n - at + 1), j = at; b.SetN(at, k, [&]() { m[j++] = v; return absl::string_view(v); }); break; }
      default: {
        auto ins = b.GetInserter(at);
        int j = at;
        while (j < n && vp_native_random(4)) { if (vp_native_random(3) == 0) ins.SkipN(1), ++j; else { ins.Add(v); m[j++] = v; } }
      }
    }
  }
  if (vp_native_random(3) == 0) return std::move(b).Build();
  int size = vp_native_random(n + 1);
  m.resize(size);
  return std::move(b).Build(size);
}
VP_BOUNDED(histories) {
  UnsafeArenaBufferFactory arena(256);
  RawBufferFactory* f = vp_native_random(2) ? GetHeapBufferFactory() : &arena;
  Model m;
  StringsBuffer b = history(m, f);
  same(b, m, "the buffer holds the strings it was built from");
  for (int i = 0; i < 8; ++i) {
    switch (vp_native_random(7)) {
      case 0: case 1: {
        int from = vp_native_random(m.size() + 1), n = vp_native_random(m.size() - from + 1);
        b = vp_native_random(2) ? b.Slice(from, n) : std::move(b).Slice(from, n);
        m = Model(m.begin() + from, m.begin() + from + n);
        break;
      }
      case 2: case 3: b = b.DeepCopy(f); break;
      case 4: { auto c = b.ShallowCopy(); same(c, m, "a shallow copy holds the same strings"); break; }
      default: {
        int n = vp_native_random(9);
        std::string d = random_string(4);
        OptionalValue<absl::string_view> def;
        if (vp_native_random(2)) def = absl::string_view(d); else d = "";
        Model r(n, d);
        StringsBuffer::ReshuffleBuilder rb(n, b, def, f);
        if (!m.empty() && n) for (int k = vp_native_random(8); k > 0; --k) {
          int at = vp_native_random(n), old = vp_native_random(m.size());
          if (vp_native_random(2)) { rb.CopyValue(at, old); r[at] = m[old]; }
          else { int to = at + vp_native_random(n - at + 1); rb.CopyValueToRange(at, to, old); for (int j = at; j < to; ++j) r[j] = m[old]; }
        }
        if (vp_native_random(2)) b = std::move(rb).Build();
        else { int size = vp_native_random(n + 1); b = std::move(rb).Build(size); r.resize(size); }
        m = r;
      }
    }
    same(b, m, "slices, copies and reshuffles hold the strings they were built from");
    Model o = m;
    if (!o.empty() && vp_native_random(2)) o[vp_native_random(o.size())] = random_string(3);
    if (vp_native_random(5) == 0) o.push_back("");
    StringsBuffer ob = StringsBuffer::Create(o.begin(), o.end());
    vp_assert((b == ob) == (m == o) && (b != ob) == (m != o), "buffers are equal exactly when their strings are");
  }
  same(StringsBuffer::CreateUninitialized(m.size()), Model(m.size()), "an uninitialized buffer holds empty strings");
}
#endif
